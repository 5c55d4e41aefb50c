// A closed, explorer-controlled stand-in for the kernel: io_uring (the liburing library functions,
// used with the real liburing headers and ring layout), eventfds, pipes and scripted sockets.
// Regular files are real files; the harness keeps them in a scratch directory.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <liburing.h>

namespace fk
{
    struct Op
    {
        int ring;            // ring fd
        int opcode;
        int fd;
        uint64_t addr;
        uint32_t len;
        uint64_t off;
        uint64_t user_data;
        uint32_t opflags;
        uint64_t seq;        // submission number
        uint64_t deadline;   // timeouts
        io_uring_sqe sqe;
        std::string path;    // openat / unlinkat
        bool cancelled = false;
        bool slow = false;
    };
    // Returns true when the operation can complete now, with its result in res.
    using Handler = std::function<bool(const Op&, int& res)>;

    struct Env
    {
        bool order = false;        // explore completion order of ready operations (1 deviation)
        bool slow = false;         // explore single file operations that take until nothing else can be done, or
                                   // until any moment before that (1 deviation each)
        bool partial = false;      // explore delivering only some ready completions (1 deviation)
        bool timers_early = false; // explore timers expiring before other activity (1 deviation)
        int init_error = 0;        // io_uring_queue_init_params fails with -init_error
        int submit_eintr = 0;      // number of waits that may be interrupted (1 deviation each)
        Handler all;               // handler of last resort for fds without one
        std::function<void(const Op&)> on_submit;
        std::function<void(const Op&, int res)> on_complete;
        std::function<bool(const char* what)> syscall_fault;  // true: fail this syscall with errno set
        uint64_t cq_entries = 0;
        bool short_moves = false;  // a faulty short write still moves the file position (as for one over 2 GiB)
        bool low_fd = false;       // descriptor 0 is free: it is the first one handed out
    };
    Env& env();

    // what the program asked of a socket
    struct Sock
    {
        int family = 0, type = 0, backlog = -1;
        bool nonblock = false, cloexec = false;
        std::string bound;                          // the address bytes given to bind
        std::map<std::pair<int, int>, int> options; // (level, option) -> value
    };
    const Sock& sock(int fd);
    int make_fd(Handler h = {}, const char* what = "sock");  // a virtual descriptor
    void set_fd_handler(int fd, Handler h);
    bool is_open(int fd);
    int open_count();                      // virtual descriptors currently open
    struct Closes
    {
        int foreign = 0;   // close of a descriptor number the program never obtained
        int dup = 0;       // close of a descriptor already closed
        std::vector<int> list;
    };
    Closes& closes();
    void kick();                           // state changed: let rings re-evaluate readiness
    uint64_t submitted();
    int pending_ops();                     // ops accepted by the kernel and not completed
    int pending_of(int opcode);
    std::vector<std::string> open_fds();
    const char* opname(int opcode);
    // file-system observation (crash enumeration)
    struct FileEv
    {
        enum Kind { CREATE, WRITE, SYNC, TRUNC, UNLINK, RENAME, MKDIR, ALLOC } kind;
        std::string path, path2;
        uint64_t off = 0, len = 0;
        std::string data;
        bool ok = true;
        bool datasync = false;
    };
    void set_file_observer(const std::string& dir, std::function<void(const FileEv&)> f);
    // called before every file operation on the observed directory; a negative return is the error
    void set_file_fault(std::function<int(const char* what, const std::string& path)> f);
    std::string fd_path(int fd);
}
