// A private directory of real files for the executions of one explorer process.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include "mcrt.h"

namespace sc
{
    inline const std::string& dir()
    {
        static std::string d;
        static pid_t owner = 0;
        if (owner != getpid())
        {
            mc::Persistent p;
            const char* base = getenv("MC_SCRATCH");
            // one process: one name, for code whose schedule depends on the name (hashing)
            const char* jobs = getenv("MC_JOBS");
            d = std::string(base ? base : "/tmp") + "/p" + (jobs && *jobs == '1' && !jobs[1] ? std::string() : std::to_string(getpid()));
            owner = getpid();
            ::mkdir(d.c_str(), 0755);
        }
        return d;
    }
    // remove everything below path (never path itself); path must lie in the scratch directory
    inline void wipe_in(const std::string& path)
    {
        if (path.compare(0, dir().size(), dir()) != 0) mc::fail("harness: wipe outside the scratch directory");
        mc::rt::Guard g;
        DIR* h = opendir(path.c_str());
        if (!h) return;
        std::string sub;
        while (auto* e = readdir(h))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            n = path + "/" + n;
            struct stat st;
            if (lstat(n.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            {
                mc::rt::Unguard u;
                wipe_in(n);
                ::unlinkat(AT_FDCWD, n.c_str(), AT_REMOVEDIR);
            }
            else
                ::unlinkat(AT_FDCWD, n.c_str(), 0);
        }
        closedir(h);
    }
    inline const std::string& fresh()
    {
        wipe_in(dir());
        return dir();
    }
    inline std::string slurp(const std::string& f)
    {
        std::string r;
        int fd = ::open(f.c_str(), O_RDONLY);
        if (fd < 0) return "<missing>";
        char b[4096];
        off_t at = 0;
        for (;;)
        {
            ssize_t n = ::pread(fd, b, sizeof b, at);
            if (n <= 0) break;
            r.append(b, (size_t) n);
            at += n;
        }
        ::close(fd);
        return r;
    }
    inline void spill(const std::string& f, const std::string& s, mode_t m = 0644)
    {
        int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, m);
        if (fd < 0) mc::fail("harness: cannot create %s", f.c_str());
        if (::pwrite(fd, s.data(), s.size(), 0) != (ssize_t) s.size()) mc::fail("harness: cannot write %s", f.c_str());
        ::close(fd);
    }
}  // namespace sc
