// mcrt: a stateless model checker for real C++ code.
//
// The code under test (and the harness) is compiled with -fsanitize=thread, but the
// instrumentation calls are bound to this runtime instead of the TSan library: every atomic
// operation and every intercepted blocking call is a scheduling point, every plain access is
// checked against a vector-clock happens-before relation and against the heap map.  Threads are
// fibers of one OS thread; the explorer enumerates *all* choice sequences whose number of
// deviations (preemptions, stale reads, environment deviations) is within the bound.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc
{
    // ---- nondeterminism -------------------------------------------------------------------
    // Alternative 0 is the default; choosing any other costs one deviation.
    int choose(int n, const char* label);
    // All alternatives are free: pure data nondeterminism, always fully enumerated.
    int choose_free(int n, const char* label);

    // ---- verdicts -------------------------------------------------------------------------
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    // A violation with a name.  If known_findings.txt lists the name for this scenario it is counted
    // as that finding and the exploration goes on; otherwise it is a violation like any other.
    void known_or_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, ...)                    \
    do                                         \
    {                                          \
        if (!(cond)) ::mc::fail(__VA_ARGS__);  \
    } while (0)
    // Record what this execution was observed to do (used for non-vacuity statistics).
    void outcome(const std::string& s);
    // Count model states / transitions a sequential enumeration visits inside one execution.
    void count_states(uint64_t n);
    void count_transitions(uint64_t n);
    // Trace line, kept only while replaying.
    void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool replaying();

    // ---- environment ----------------------------------------------------------------------
    uint64_t now_ns();            // virtual monotonic time
    void advance_ns(uint64_t d);
    void set_clock_tick(uint64_t ns_per_call);  // every clock_gettime advances by this much
    void set_wall_offset(int64_t ns);            // CLOCK_REALTIME = virtual now + offset
    int self();                   // current model thread
    void yield();                 // a scheduling point where switching is free
    uint64_t live_allocs();       // heap blocks allocated in this execution and not yet freed
    bool addressable(const void* p, size_t n);   // heap check
    bool in_execution();
    void set_horizon(uint64_t steps);
    // Treat [p,p+n) as out of scope for race detection (documented at each use).
    void ignore_range(const void* p, size_t n);

    // allocations inside are made with the real allocator and are not reset/undone
    struct Persistent
    {
        Persistent();
        ~Persistent();
    };

    // One of many trials inside an execution: whatever this thread allocates inside must be freed by
    // the end (otherwise: leak) and its memory is then reused.  Keep anything that outlives the
    // trial in Persistent storage.
    struct Trial
    {
        uint64_t bump, live;
        const char* what;
        explicit Trial(const char* what);
        ~Trial() noexcept(false);
    };

    struct Options
    {
        bool stale_reads = false;      // explore C++11-allowed stale atomic loads (1 deviation each)
        bool timeouts = false;         // explore timed waits firing early (1 deviation each)
        bool spurious_cas = false;     // compare_exchange_weak may fail (1 deviation)
        bool allow_blocked_end = false;
        uint64_t horizon = 60000;
        bool race_check = true;
        bool switch_cost = false;      // choosing who runs when the current thread blocks costs a deviation too
        bool wake_order = false;       // futex/cond wake picks any waiter (1 deviation)
    };

    struct Scenario
    {
        const char* name;
        void (*fn)();
        Options opt;
        Scenario* next;
        Scenario(const char* n, void (*f)(), Options o = {});
    };

    // called once, before exploration, outside any execution (for globals such as the logger)
    void set_setup(void (*fn)());

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(id, ...)                                                    \
    static void id();                                                        \
    static ::mc::Scenario MC_CAT(mc_sc_, id)(#id, &id, ##__VA_ARGS__);       \
    static void id()

    // ---- used by the fake kernel ----------------------------------------------------------
    namespace rt
    {
        struct Guard  // runtime-internal section: allocations go to malloc, no scheduling
        {
            Guard();
            ~Guard();
        };
        struct Unguard  // leaves the runtime-internal section (callbacks into the harness, choices)
        {
            int saved;
            Unguard();
            ~Unguard();
        };
        void point(const char* what, const void* key);           // scheduling point
        // block until wake(key); deadline in virtual ns or ~0. returns false on timeout.
        bool block(const void* key, uint64_t deadline, const char* what);
        void wake_all(const void* key);
        void write_event();                                       // un-starve yielded threads
        void hb_release(const void* key);                         // happens-before edges
        void hb_acquire(const void* key);
        void check_access(const void* p, size_t n, bool write, const char* what);
        bool active();
        void on_reset(void (*fn)());                              // called at the start of each execution
        extern bool (*thread_fault)();                            // true: pthread_create fails with errno
    }
}
