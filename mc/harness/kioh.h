// Shared pieces of the kio harnesses: a silent logger and a worker on its own thread.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <coroutine>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <latch>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "fakekern.h"
#include "kio/core/async_logger.h"
#include "kio/core/coro.h"
#include "kio/core/worker.h"
#include "kio/sync/sync_wait.h"
#include "mcrt.h"

namespace kh
{
    // The global logger stays disabled: it has its own property (C12).
    inline void silence() { kio::alog::configure(2, kio::LogLevel::Disabled); }
    struct AutoSilence
    {
        AutoSilence() { mc::set_setup(&silence); }
    };

    inline kio::io::WorkerConfig small(size_t depth = 8, size_t slots = 4, size_t queue = 8)
    {
        kio::io::WorkerConfig c;
        c.uring_queue_depth = depth;
        c.default_op_slots = slots;
        c.task_queue_capacity = queue;
        return c;
    }

    struct WT
    {
        kio::io::Worker w;
        std::thread t;
        explicit WT(size_t id = 0, const kio::io::WorkerConfig& c = small(), std::function<void(kio::io::Worker&)> cb = {}) :
            w(id, c, std::move(cb)), t([this] { w.loop_forever(); })
        {
        }
        void ready() { w.wait_ready(); }
        void stop()
        {
            if (!t.joinable()) return;
            (void) w.request_stop();
            w.wait_shutdown();
            t.join();
        }
        ~WT() { stop(); }
    };
    inline int tid() { return mc::self(); }
    // counts in program order; cheap, data-race free by construction of the scenario
    struct Event
    {
        std::atomic<int> n{0};
        void hit()
        {
            n.fetch_add(1);
            n.notify_all();
        }
        void await(int k)
        {
            for (int v = n.load(); v < k; v = n.load()) n.wait(v);
        }
    };
    // nothing the fake kernel handed out may survive the scenario, and nothing foreign was closed
    inline void check_fds(const char* where)
    {
        auto& c = fk::closes();
        MC_CHECK(c.foreign == 0, "%s: close() of a descriptor the library never opened (%d times)", where, c.foreign);
        MC_CHECK(c.dup == 0, "%s: a descriptor was closed twice", where);
        if (fk::open_count() != 0)
        {
            std::string s;
            for (auto& x: fk::open_fds()) s += x + " ";
            mc::fail("%s: %d descriptors leaked: %s", where, fk::open_count(), s.c_str());
        }
    }
}  // namespace kh
