// See mcrt.h.  This file is compiled WITHOUT instrumentation.
#include "mcrt.h"

#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <immintrin.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <exception>
#include <cxxabi.h>
#include <new>

#define MAXT 12
#define MAXPOINTS 400000
typedef unsigned char u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

static constexpr uintptr_t ARENA_BASE = 0x100000000000ull;
static constexpr size_t ARENA_PER = 64ull << 20;  // per thread
static constexpr size_t ARENA_SIZE = ARENA_PER * (MAXT + 1);
static constexpr uintptr_t STACK_BASE = 0x110000000000ull;
static constexpr size_t STACK_PER = 1ull << 20;
static constexpr size_t STACK_SIZE = STACK_PER * MAXT;

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static pthread_t (*real_pthread_self)();
static int (*real_mutex_lock)(pthread_mutex_t*);
static int (*real_mutex_trylock)(pthread_mutex_t*);
static int (*real_mutex_unlock)(pthread_mutex_t*);
static int (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
static int (*real_cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
static int (*real_cond_signal)(pthread_cond_t*);
static int (*real_cond_broadcast)(pthread_cond_t*);
static int (*real_rw_rdlock)(pthread_rwlock_t*);
static int (*real_rw_wrlock)(pthread_rwlock_t*);
static int (*real_rw_tryrdlock)(pthread_rwlock_t*);
static int (*real_rw_trywrlock)(pthread_rwlock_t*);
static int (*real_rw_unlock)(pthread_rwlock_t*);
static int (*real_clock_gettime)(clockid_t, timespec*);
static int (*real_setaffinity)(pthread_t, size_t, const cpu_set_t*);

namespace
{
    struct VC
    {
        u32 c[MAXT];
        void join(const VC& o)
        {
            for (int i = 0; i < MAXT; i++)
                if (o.c[i] > c[i]) c[i] = o.c[i];
        }
        void clear() { memset(c, 0, sizeof c); }
    };

    enum State : u8
    {
        UNUSED,
        RUNNABLE,
        BLOCKED,
        FINISHED
    };

    struct Dtor
    {
        void (*f)(void*);
        void* o;
    };

    struct Thread
    {
        State st;
        bool detached, timed_out, yielded, woken;
        void* sp;
        u64 fsbase;
        VC vc, vis, relf, relf_vis, acqp, acqp_vis;
        void* (*fn)(void*);
        void* arg;
        void* ret;
        const void* wait_key;
        u64 deadline;
        const char* what;
        int joiner;
        Dtor dtors[32];
        int ndtors;
        // spin detection
        const void* last_load;
        void* last_load_pc;
        int same_load;
        u64 last_load_wc;
        u64 last_val;
        int spin;
        int yields;
        size_t bump;
        VC final_vc;
        // what was last seen to be unwound: stack below sp was dead at time clk; sp falling, clk rising
        struct Unwound
        {
            uintptr_t sp;
            u32 clk;
        } unwound[48];
        int nunwound;
    };

    struct Rec
    {
        u64 pc;
        u32 clk;
        u8 tid, kind /*bit0 write, bit1 atomic*/, mask, pad;
    };
    struct Cell
    {
        u32 gen;
        u32 n;
        Rec r[4];
    };

    struct Store
    {
        u64 lo, hi;
        u8 tid;
        u32 clk;
        VC msg, msgvis;
    };
    static constexpr int NST = 5;
    struct Loc
    {
        u32 gen;
        uintptr_t addr;
        u8 size;
        bool known_shared;
        u16 tmask, wmask;
        u32 nst;       // total stores in mo since baseline
        Store st[NST]; // ring by seq % NST
        u32 rseq[MAXT], rclk[MAXT];
    };
    static constexpr int NLOC = 1 << 14;

    struct SyncObj
    {
        u32 gen;
        uintptr_t key;
        VC vc;
        int owner;    // mutex: tid+1 ; rwlock writer
        int count;    // recursion / readers
        u16 waiters;
    };
    static constexpr int NSYNC = 1 << 12;

    struct PointRec
    {
        u16 n, free_upto, c;
    };

    struct ShSet
    {
        static constexpr u32 N = 1 << 16;
        std::atomic<u64> k[N];
        std::atomic<u32> cnt;
        bool has(u64 a) const
        {
            u32 h = (u32) ((a * 0x9E3779B97F4A7C15ull) >> 40) & (N - 1);
            for (u32 i = 0; i < 64; i++)
            {
                u64 v = k[(h + i) & (N - 1)].load(std::memory_order_relaxed);
                if (v == a) return true;
                if (!v) return false;
            }
            return false;
        }
        bool add(u64 a)
        {
            u32 h = (u32) ((a * 0x9E3779B97F4A7C15ull) >> 40) & (N - 1);
            for (u32 i = 0; i < 64; i++)
            {
                u64 v = k[(h + i) & (N - 1)].load();
                if (v == a) return false;
                if (!v)
                {
                    u64 e = 0;
                    if (k[(h + i) & (N - 1)].compare_exchange_strong(e, a))
                    {
                        cnt++;
                        return true;
                    }
                    if (e == a) return false;
                }
            }
            return false;
        }
    };

    struct Spin
    {
        std::atomic<u32> v;
        void lock()
        {
            u32 e = 0;
            int n = 0;
            while (!v.compare_exchange_weak(e, 1))
            {
                e = 0;
                if (++n > 100) usleep(50);
            }
        }
        void unlock() { v.store(0); }
    };

    static constexpr int MAXW = 16;
    struct WSlot
    {
        std::atomic<u64> beat;
        std::atomic<u32> npoints;
        u16 ch[MAXPOINTS];
    };
    static constexpr size_t GBUF = 64 << 20;
    struct Shm
    {
        ShSet known, found;
        std::atomic<u64> execs, points, steps, maxpoints, maxthreads, mstates, mtrans, sched_points;
        std::atomic<u64> n_outcomes;
        std::atomic<u64> known_hit[32];
        std::atomic<u64> outc[1 << 16];
        std::atomic<int> stop;
        std::atomic<int> failed;
        char msg[4096];
        u32 fail_n;
        u16 fail_ch[MAXPOINTS];
        Spin flock;
        Spin olock;
        int nsample;
        char sample[24][400];
        // work sharing
        Spin glock;
        std::atomic<u32> gcount;
        std::atomic<int> idle;
        std::atomic<int> nworkers;
        size_t gtop;
        u8 gbuf[GBUF];
        std::atomic<int> capped;
        u64 deadline_us;
        WSlot w[MAXW];
    };

    struct RT
    {
        bool active;
        int internal;
        bool replay;
        bool failed;
        int cur;
        int nthreads;
        int persist;
        Thread t[MAXT];
        void* explorer_sp;
        u64 explorer_fs;
        u64 parked_fs[MAXT];
        int nparked;
        u32 gen;
        u64 steps, horizon;
        u64 wcount;
        u64 now, tick;
        int64_t wall_off;
        mc::Options opt;
        VC sc_vis;
        // choices
        u16* prefix;
        u16* prefn;
        u32 plen;
        u32 np;
        PointRec pt[MAXPOINTS];
        int cost;
        char msg[4096];
        Loc loc[NLOC];
        SyncObj sync[NSYNC];
        u64 live;
        u64 live_bytes;
        FILE* trace;
        u64 mstates, mtrans, sched_points;
        void (*resets[8])();
        int nresets;
        // data snapshot
        struct Seg
        {
            char* p;
            size_t n;
            char* copy;
        } seg[16];
        int nseg;
        size_t tls_size, tls_init_size;
        char* tls_init;
        int64_t tls_off;  // fs - tlsblock
        struct
        {
            uintptr_t a;
            size_t n;
        } ign[16];
        int nign;
        WSlot* slot;
        void (*body)();
        u8* amap;      // one byte per granule of the arena
        Cell* acell;   // arena shadow
        Cell* scell;   // stack shadow
        Cell* gcell;   // hashed shadow for everything else
        u64 hb_faults;
    };
    static constexpr size_t GCELLS = 1 << 14;
    struct GKey
    {
        u32 gen;
        uintptr_t a;
    };
    static GKey* gkeys;
}  // namespace

static RT* R;
static Shm* S;

static inline bool act() { return R && R->active && !R->internal; }
static inline Thread& T() { return R->t[R->cur]; }

// ------------------------------------------------------------------ context switch
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
.globl mc_tramp
.type mc_tramp,@function
mc_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  callq mc_fiber_main
  ud2
  .cfi_endproc
)");
extern "C" void mc_tramp();

static inline u64 rdfs()
{
    u64 v;
    asm volatile("rdfsbase %0" : "=r"(v));
    return v;
}
static inline void wrfs(u64 v) { asm volatile("wrfsbase %0" ::"r"(v) : "memory"); }

__attribute__((noinline)) static void switch_to_explorer()
{
    void* dummy;
    wrfs(R->explorer_fs);
    R->active = false;
    mc_switch(&dummy, R->explorer_sp);
    __builtin_trap();
}

__attribute__((noinline)) static void switch_thread(int to)
{
    int from = R->cur;
    if (from == to) return;
    R->cur = to;
    wrfs(R->t[to].fsbase);
    mc_switch(&R->t[from].sp, R->t[to].sp);
}

static void vfailmsg(const char* fmt, va_list ap) { vsnprintf(R->msg, sizeof R->msg, fmt, ap); }

static void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tr(const char* fmt, ...)
{
    if (!R->trace) return;
    R->internal++;
    va_list ap;
    va_start(ap, fmt);
    fprintf(R->trace, "T%d: ", R->cur);
    vfprintf(R->trace, fmt, ap);
    fputc('\n', R->trace);
    va_end(ap);
    R->internal--;
}

[[noreturn]] static void rt_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] static void rt_fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    R->internal++;
    vfailmsg(fmt, ap);
    va_end(ap);
    R->failed = true;
    if (R->trace)
    {
        fprintf(R->trace, "T%d: FAIL %s\n", R->cur, R->msg);
        fflush(R->trace);
    }
    switch_to_explorer();
    __builtin_unreachable();
}

static void thread_states(char* b, size_t n)
{
    size_t o = 0;
    for (int i = 0; i < R->nthreads && o + 80 < n; i++)
    {
        auto& t = R->t[i];
        const char* s = t.st == RUNNABLE ? "runnable" : t.st == FINISHED ? "finished" : "blocked";
        o += snprintf(b + o, n - o, " T%d:%s%s%s", i, s, t.st == BLOCKED ? " in " : "", t.st == BLOCKED ? (t.what ? t.what : "?") : "");
    }
}

// ------------------------------------------------------------------ choices
static int choose_impl(int n, int free_upto, const char* label)
{
    if (n <= 1) return 0;
    u32 pos = R->np;
    if (pos >= MAXPOINTS) rt_fail("too many choice points in one execution");
    int c = 0;
    if (pos < R->plen)
    {
        c = R->prefix[pos];
        if ((R->prefn && R->prefn[pos] && R->prefn[pos] != n) || c >= n)
        {
            R->internal++;
            snprintf(R->msg, sizeof R->msg, "MCRT-DIVERGENCE at point %u (%s): n=%d recorded n=%d choice=%d", pos, label, n, R->prefn ? R->prefn[pos] : -1, c);
            R->failed = true;
            switch_to_explorer();
        }
    }
    R->pt[pos] = {(u16) n, (u16) free_upto, (u16) c};
    if (R->slot)
    {
        R->slot->ch[pos] = (u16) c;
        R->slot->npoints.store(pos + 1, std::memory_order_relaxed);
    }
    R->np = pos + 1;
    if (c >= free_upto) R->cost++;
    if (R->trace && (c || n > 1)) tr("choice #%u %s: %d of %d%s", pos, label, c, n, c ? "  <---" : "");
    return c;
}

// ------------------------------------------------------------------ scheduler
static bool min_timer(int* who)
{
    u64 best = ~0ull;
    int w = -1;
    for (int i = 0; i < R->nthreads; i++)
        if (R->t[i].st == BLOCKED && R->t[i].deadline != ~0ull && R->t[i].deadline < best)
        {
            best = R->t[i].deadline;
            w = i;
        }
    *who = w;
    return w >= 0;
}
static void fire_timer(int w)
{
    auto& t = R->t[w];
    if (t.deadline > R->now) R->now = t.deadline;
    t.st = RUNNABLE;
    t.timed_out = true;
    t.deadline = ~0ull;
    t.wait_key = nullptr;
}
// Pick who runs next; cur_ok: current thread may continue; costs: switching away from an enabled,
// non-yielding current thread is a preemption.
static void reschedule(bool cur_ok, bool free_switch, const char* label)
{
    for (;;)
    {
        int opt[MAXT + 1], n = 0;
        int cur = R->cur;
        if (cur_ok && R->t[cur].st == RUNNABLE) opt[n++] = cur;
        bool any_unyielded = n > 0;
        for (int i = 0; i < R->nthreads; i++)
            if (i != cur && R->t[i].st == RUNNABLE && !R->t[i].yielded) any_unyielded = true;
        if (!any_unyielded)
            for (int i = 0; i < R->nthreads; i++) R->t[i].yielded = false;
        for (int i = 0; i < R->nthreads; i++)
            if (i != cur && R->t[i].st == RUNNABLE && !R->t[i].yielded) opt[n++] = i;
        if (!cur_ok && n == 0 && R->t[cur].st == RUNNABLE) opt[n++] = cur;
        int free_upto = (cur_ok && !free_switch && n && opt[0] == cur) ? 1 : n;
        if (R->opt.switch_cost && n > 1) free_upto = 1;
        int timer = -1;
        if (min_timer(&timer))
        {
            if (n == 0)
            {
                fire_timer(timer);
                continue;
            }
            if (R->opt.timeouts) opt[n++] = -2 - timer;
        }
        if (n == 0)
        {
            bool all_done = true;
            for (int i = 0; i < R->nthreads; i++)
                if (R->t[i].st == BLOCKED) all_done = false;
            if (all_done || (R->opt.allow_blocked_end && R->t[0].st == FINISHED))
            {
                switch_to_explorer();
            }
            char b[1500];
            thread_states(b, sizeof b);
            rt_fail("deadlock / lost wakeup: no thread can run;%s", b);
        }
        int c = n == 1 ? 0 : choose_impl(n, free_upto, label);
        int w = opt[c];
        if (w <= -2)
        {
            fire_timer(-2 - w);
            tr("early timeout of T%d", -2 - w);
            w = -2 - w;
        }
        if (w != cur)
        {
            R->t[cur].yields = 0;
            if (R->trace) tr("switch -> T%d (%s)", w, label);
            switch_thread(w);
        }
        return;
    }
}

static void step()
{
    if (++R->steps > R->horizon)
    {
        char b[1500];
        thread_states(b, sizeof b);
        rt_fail("livelock: no completion within %llu steps;%s", (unsigned long long) R->horizon, b);
    }
}

static void write_event()
{
    R->wcount++;
    for (int i = 0; i < R->nthreads; i++)
        if (i != R->cur) R->t[i].yielded = false;
}

static void sched_point(const char* label)
{
    step();
    R->sched_points++;
    reschedule(true, false, label);
}

// forced: we are spinning, someone else must run
static void forced_yield(const char* label)
{
    step();
    T().yielded = true;
    reschedule(false, true, label);
    T().yielded = false;
}

static bool block_on(const void* key, u64 deadline, const char* what)
{
    step();
    auto& t = T();
    if (deadline != ~0ull && deadline <= R->now) return false;
    t.st = BLOCKED;
    t.wait_key = key;
    t.deadline = deadline;
    t.what = what;
    t.timed_out = false;
    if (R->trace) tr("blocks in %s", what);
    reschedule(false, true, what);
    t.what = nullptr;
    return !t.timed_out;
}
static void wake(int i)
{
    auto& t = R->t[i];
    t.st = RUNNABLE;
    t.wait_key = nullptr;
    t.deadline = ~0ull;
    t.timed_out = false;
}
static int wake_key(const void* key, int max)
{
    int n = 0;
    for (int i = 0; i < R->nthreads && n < max; i++)
        if (R->t[i].st == BLOCKED && R->t[i].wait_key == key)
        {
            wake(i);
            n++;
        }
    return n;
}

// ------------------------------------------------------------------ fibers
static void park_threads(int upto);
static void run_tls_dtors()
{
    auto& t = T();
    while (t.ndtors)
    {
        Dtor d = t.dtors[--t.ndtors];
        d.f(d.o);
    }
}

extern "C" __attribute__((used)) void mc_fiber_main()
{
    {
        auto& t = T();
        void* r = nullptr;
        if (R->cur == 0)
            R->body();
        else
            r = t.fn(t.arg);
        run_tls_dtors();
        auto& t2 = T();
        t2.ret = r;
        t2.final_vc = t2.vc;
        t2.st = FINISHED;
        if (R->trace) tr("thread end");
        write_event();
        wake_key(&t2, MAXT);
    }
    reschedule(false, true, "thread-end");
    __builtin_trap();
}

static int new_thread(void* (*fn)(void*), void* arg)
{
    int id = R->nthreads;
    if (id >= MAXT) rt_fail("too many threads in one execution");
    R->nthreads++;
    auto& t = R->t[id];
    size_t keepfs = t.fsbase;
    memset(&t, 0, sizeof t);
    t.fsbase = keepfs;
    if (!t.fsbase)
    {
        park_threads(id + 1);
        t.fsbase = R->parked_fs[id];
    }
    t.st = RUNNABLE;
    t.fn = fn;
    t.arg = arg;
    t.deadline = ~0ull;
    t.vc.c[id] = 1;
    t.vis.c[id] = 1;
    // TLS image of the main program
    if (R->tls_size)
    {
        char* blk = (char*) (t.fsbase - R->tls_off);
        memcpy(blk, R->tls_init, R->tls_init_size);
        memset(blk + R->tls_init_size, 0, R->tls_size - R->tls_init_size);
    }
    uintptr_t top = STACK_BASE + STACK_PER * (id + 1) - 64;
    top &= ~(uintptr_t) 15;
    u64* sp = (u64*) top;
    *--sp = 0;
    *--sp = 0;
    *--sp = (u64) &mc_tramp;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp;
    u32 mx = 0x1f80;
    u16 cw = 0x37f;
    memcpy(sp, &mx, 4);
    memcpy((char*) sp + 4, &cw, 2);
    t.sp = sp;
    return id;
}

static void* parked_main(void* p)
{
    *(volatile u64*) p = rdfs();
    for (;;) syscall(SYS_pause);
    return nullptr;
}
static void park_threads(int upto)
{
    bool a = R->active;
    R->active = false;
    u64 fs = rdfs();
    if (a) wrfs(R->explorer_fs);
    while (R->nparked < upto)
    {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 128 << 10);
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_SETMASK, &all, &old);
        pthread_t p;
        volatile u64 v = 0;
        if (real_pthread_create(&p, &at, parked_main, (void*) &v) != 0)
        {
            fprintf(stderr, "mcrt: cannot create parked thread\n");
            _exit(4);
        }
        pthread_sigmask(SIG_SETMASK, &old, nullptr);
        while (!v) ::sched_yield();
        R->parked_fs[R->nparked++] = v;
        pthread_attr_destroy(&at);
    }
    if (a) wrfs(fs);
    R->active = a;
}

// ------------------------------------------------------------------ heap
static inline bool in_arena(const void* p) { return (uintptr_t) p >= ARENA_BASE && (uintptr_t) p < ARENA_BASE + ARENA_SIZE; }
static inline bool in_stack(const void* p) { return (uintptr_t) p >= STACK_BASE && (uintptr_t) p < STACK_BASE + STACK_SIZE; }

static Cell* cell_for(uintptr_t g)  // g = granule address (8-aligned)
{
    if (g >= ARENA_BASE && g < ARENA_BASE + ARENA_SIZE) return &R->acell[(g - ARENA_BASE) >> 3];
    if (g >= STACK_BASE && g < STACK_BASE + STACK_SIZE) return &R->scell[(g - STACK_BASE) >> 3];
    u32 h = (u32) (((g >> 3) * 0x9E3779B97F4A7C15ull) >> 44) & (GCELLS - 1);
    for (u32 i = 0; i < 32; i++)
    {
        u32 k = (h + i) & (GCELLS - 1);
        if (gkeys[k].gen != R->gen)
        {
            gkeys[k].gen = R->gen;
            gkeys[k].a = g;
            R->gcell[k].gen = 0;
            return &R->gcell[k];
        }
        if (gkeys[k].a == g) return &R->gcell[k];
    }
    return nullptr;
}

static bool addressable_fast(uintptr_t p, size_t n)
{
    if (p < ARENA_BASE || p >= ARENA_BASE + ARENA_SIZE) return true;
    if (n == 0) return true;
    uintptr_t e = p + n;
    for (uintptr_t g = p & ~7ull; g < e; g += 8)
    {
        u8 s = R->amap[(g - ARENA_BASE) >> 3];
        if (s == 8) continue;
        if (s == 0 || s == 0xFD) return false;
        uintptr_t last = e - g < 8 ? e - g : 8;
        if (last > s) return false;
    }
    return true;
}
static const char* why_bad(uintptr_t p, size_t n)
{
    uintptr_t e = p + n;
    for (uintptr_t g = p & ~7ull; g < e; g += 8)
    {
        u8 s = R->amap[(g - ARENA_BASE) >> 3];
        if (s == 0xFD) return "use-after-free";
    }
    return "heap-buffer-overflow";
}

static void drop_locs(uintptr_t a, size_t n);

static void* arena_alloc(size_t n, size_t al)
{
    if (al < 16) al = 16;
    auto& t = T();
    uintptr_t base = ARENA_BASE + ARENA_PER * R->cur;
    size_t off = t.bump + 32;  // header + redzone
    off = (off + al - 1) & ~(al - 1);
    size_t end = off + ((n + 7) & ~7ull) + 16;
    end = (end + 15) & ~15ull;
    if (n > ARENA_PER || end > ARENA_PER)
    {
        if (n > ARENA_PER) return nullptr;
        rt_fail("runaway allocation: more than %zu MiB allocated by one thread", ARENA_PER >> 20);
    }
    uintptr_t p = base + off;
    ((u64*) p)[-1] = n;
    ((u64*) p)[-2] = 0xA110CA7EDull;
    t.bump = end;
    u8* m = &R->amap[(p - ARENA_BASE) >> 3];
    memset(m, 8, n / 8);
    if (n & 7) m[n / 8] = n & 7;
    memset((void*) p, 0xCD, n);
    // fresh memory is unknown to other threads until published
    R->live++;
    R->live_bytes += n;
    return (void*) p;
}
static void mem_access(const void* a, size_t n, u8 kind, void* pc);
static void arena_free(void* p, void* pc)
{
    uintptr_t a = (uintptr_t) p;
    if (!R->active) return;
    u8 s = R->amap[(a - ARENA_BASE) >> 3];
    if (((u64*) p)[-2] != 0xA110CA7EDull) rt_fail("free of a pointer that was not allocated (%p)", p);
    size_t n = ((u64*) p)[-1];
    if (n && s == 0xFD) rt_fail("double free of a %zu byte block", n);
    if (!R->internal) mem_access(p, n, 1, pc);
    memset(&R->amap[(a - ARENA_BASE) >> 3], 0xFD, (n + 7) / 8);
    ((u64*) p)[-2] = 0xDEADull;
    memset(p, 0xDD, n);
    R->live--;
    R->live_bytes -= n;
}

// the caller of a hook, and where its stack frame ends
static uintptr_t hook_sp;
#define PC() (hook_sp = (uintptr_t) __builtin_frame_address(0) + 16, __builtin_return_address(0))

static void* do_new(size_t n, size_t al)
{
    if (R && R->active && !R->internal && !R->persist) return arena_alloc(n, al);
    void* p = nullptr;
    if (al > 16)
    {
        if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
    }
    else
        p = malloc(n ? n : 1);
    return p;
}
static void do_del(void* p, void* pc)
{
    if (!p) return;
    if (in_arena(p))
        arena_free(p, pc);
    else
        free(p);
}
void* operator new(size_t n)
{
    void* p = do_new(n, 16);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    void* p = do_new(n, 16);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, std::align_val_t a)
{
    void* p = do_new(n, (size_t) a);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n, std::align_val_t a)
{
    void* p = do_new(n, (size_t) a);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t) a); }
void operator delete(void* p) noexcept { do_del(p, PC()); }
void operator delete[](void* p) noexcept { do_del(p, PC()); }
void operator delete(void* p, size_t) noexcept { do_del(p, PC()); }
void operator delete[](void* p, size_t) noexcept { do_del(p, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p, PC()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_del(p, PC()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_del(p, PC()); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_del(p, PC()); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_del(p, PC()); }

// ------------------------------------------------------------------ plain accesses
static const char* kindname(u8 k)
{
    static const char* n[] = {"read", "write", "atomic read", "atomic write"};
    return n[k & 3];
}
static void access_granule(uintptr_t g, u8 mask, u8 kind, void* pc)
{
    Cell* c = cell_for(g);
    if (!c) return;
    int me = R->cur;
    auto& t = R->t[me];
    if (c->gen != R->gen)
    {
        c->gen = R->gen;
        c->n = 0;
    }
    u32 clk = t.vc.c[me];
    if (c->n == 1 && c->r[0].tid == me)
    {
        Rec& r = c->r[0];
        if (r.kind == kind && r.mask == mask)
        {
            r.clk = clk;
            r.pc = (u64) pc;
            return;
        }
    }
    u32 o = 0;
    for (u32 i = 0; i < c->n; i++)
    {
        Rec r = c->r[i];
        if (r.mask & mask)
        {
            if (r.tid != me)
            {
                if (((r.kind | kind) & 1) && !((r.kind & kind) & 2) && r.clk > t.vc.c[r.tid])
                {
                    bool ign = false;
                    for (int k = 0; k < R->nign; k++)
                        if (g + 7 >= R->ign[k].a && g < R->ign[k].a + R->ign[k].n) ign = true;
                    if (!ign && R->opt.race_check)
                        rt_fail("data race: T%d %s and T%d %s of the same memory are not ordered [pc=%p pc=%p]", r.tid, kindname(r.kind), me, kindname(kind), (void*) r.pc, pc);
                }
                // a write ordered after this record subsumes it (same atomicity class only)
                if ((kind & 1) && !(kind & 2) && r.clk <= t.vc.c[r.tid]) r.mask &= ~mask;
            }
            else if (r.kind == kind)
                r.mask &= ~mask;
        }
        if (r.mask) c->r[o++] = r;
    }
    c->n = o;
    if (c->n == 4)
    {  // full: forget the oldest (can only lose detection)
        for (int i = 0; i < 3; i++) c->r[i] = c->r[i + 1];
        c->n = 3;
    }
    c->r[c->n++] = Rec{(u64) pc, clk, (u8) me, kind, mask, 0};
}

static void bad_access(uintptr_t a, size_t n, const char* k, void* pc) { rt_fail("%s: T%d %s of %zu bytes at %p [pc=%p]", why_bad(a, n), R->cur, k, n, (void*) a, pc); }

static inline void note_frame()
{
    uintptr_t sp = hook_sp;
    hook_sp = 0;
    const int me = R->cur;
    if (sp - (STACK_BASE + STACK_PER * me) >= STACK_PER) return;
    auto& t = R->t[me];
    const u32 clk = t.vc.c[me];
    int n = t.nunwound;
    while (n > 0 && t.unwound[n - 1].sp <= sp) n--;
    if (n > 0 && t.unwound[n - 1].clk == clk)
    {
        t.nunwound = n;
        return;
    }
    if (n == (int) (sizeof t.unwound / sizeof t.unwound[0]))  // forget the oldest (can only lose detection)
        memmove(&t.unwound[0], &t.unwound[1], (size_t) --n * sizeof t.unwound[0]);
    t.unwound[n++] = {sp, clk};
    t.nunwound = n;
}
// memory of another thread's stack that was unwound since this thread last heard of it
static void check_frame(uintptr_t a, size_t n, u8 kind, void* pc)
{
    const int o = (int) ((a - STACK_BASE) / STACK_PER);
    if (o == R->cur || o >= R->nthreads) return;
    auto& t = R->t[o];
    for (int i = t.nunwound - 1; i >= 0; i--)
        if (t.unwound[i].sp > a)
        {
            if (t.unwound[i].clk > T().vc.c[o])
                rt_fail("use of a stack frame that was left: T%d %s of %zu bytes in the stack of T%d [pc=%p]", R->cur, kindname(kind), n, o, pc);
            return;
        }
}
static void mem_access(const void* p, size_t n, u8 kind, void* pc)
{
    uintptr_t a = (uintptr_t) p;
    if (n == 0) return;
    if (!addressable_fast(a, n)) bad_access(a, n, kindname(kind), pc);
    if (R->opt.race_check && R->nthreads > 1)
    {
        note_frame();
        if (in_stack(p)) check_frame(a, n, kind, pc);
    }
    if (!R->opt.race_check || (R->nthreads == 1 && !in_arena(p) && !in_stack(p))) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ull; g < e; g += 8)
    {
        unsigned lo = a > g ? (unsigned) (a - g) : 0;
        unsigned hi = e - g < 8 ? (unsigned) (e - g) : 8;
        u8 mask = (u8) (((1u << hi) - 1) & ~((1u << lo) - 1));
        access_granule(g, mask, kind, pc);
    }
}

// ------------------------------------------------------------------ atomics
static Loc* loc_for(const void* p, int size)
{
    uintptr_t a = (uintptr_t) p;
    u32 h = (u32) ((a * 0x9E3779B97F4A7C15ull) >> 44) & (NLOC - 1);
    for (u32 i = 0; i < 256; i++)
    {
        Loc* l = &R->loc[(h + i) & (NLOC - 1)];
        if (l->gen != R->gen)
        {
            l->gen = R->gen;
            l->addr = a;
            l->size = (u8) size;
            l->tmask = l->wmask = 0;
            l->nst = 0;
            l->known_shared = S->known.has(a);
            memset(l->rseq, 0, sizeof l->rseq);
            memset(l->rclk, 0, sizeof l->rclk);
            return l;
        }
        if (l->addr == a) return l;
    }
    fprintf(stderr, "mcrt: atomic table full\n");
    _exit(4);
}
static Loc* loc_find(uintptr_t a)
{
    u32 h = (u32) ((a * 0x9E3779B97F4A7C15ull) >> 44) & (NLOC - 1);
    for (u32 i = 0; i < 256; i++)
    {
        Loc* l = &R->loc[(h + i) & (NLOC - 1)];
        if (l->gen != R->gen) return nullptr;
        if (l->addr == a) return l;
    }
    return nullptr;
}

enum
{
    mo_relaxed,
    mo_consume,
    mo_acquire,
    mo_release,
    mo_acq_rel,
    mo_seq_cst
};
static inline bool is_acq(int m) { return m == mo_acquire || m == mo_consume || m == mo_acq_rel || m == mo_seq_cst; }
static inline bool is_rel(int m) { return m == mo_release || m == mo_acq_rel || m == mo_seq_cst; }

static void note_loc(Loc* l, bool write)
{
    l->tmask |= (u16) (1u << R->cur);
    if (write) l->wmask |= (u16) (1u << R->cur);
    if (!l->known_shared && l->wmask && (l->tmask & (l->tmask - 1))) S->found.add(l->addr);
}

// scheduling point before an atomic access
static Loc* pre_atomic(const void* a, int size, bool maybe_load, u64 curval, const char* label, void* pc = nullptr)
{
    Loc* l = loc_for(a, size);
    auto& t = T();
    if (l->known_shared)
    {
        if (maybe_load && t.last_load == a && t.last_load_pc == pc && t.last_load_wc == R->wcount && t.last_val == curval && ++t.same_load > 1)
        {
            // the same instruction loads the same value again with no write in between: spinning, no new
            // behaviour here (the first repetition stays a scheduling point: the code may not be a loop)
            if (++t.spin > 48)
            {
                t.spin = 0;
                forced_yield("spin");
                l = loc_for(a, size);
            }
            else
                step();
        }
        else
        {
            if (!(maybe_load && t.last_load == a && t.last_load_pc == pc)) t.same_load = 0;
            t.spin = 0;
            sched_point(label);
        }
    }
    else
    {
        step();
    }
    return l;
}
static void sync_baseline(Loc* l, const void* a, int size)
{
    u64 v[2] = {0, 0};
    memcpy(v, a, size);
    if (l->nst && l->size == size)
    {
        Store& s = l->st[(l->nst - 1) % NST];
        if (s.lo == v[0] && s.hi == v[1]) return;
    }
    l->size = (u8) size;
    l->nst = 1;
    Store& s = l->st[0];
    s.lo = v[0];
    s.hi = v[1];
    s.tid = 0;
    s.clk = 0;
    s.msg.clear();
    s.msgvis.clear();
    memset(l->rseq, 0, sizeof l->rseq);
    memset(l->rclk, 0, sizeof l->rclk);
}
static void sc_op()
{
    auto& t = T();
    t.vis.join(R->sc_vis);
    R->sc_vis.join(t.vis);
}
static void do_acquire(const Store& s, int mo)
{
    auto& t = T();
    if (is_acq(mo))
    {
        t.vc.join(s.msg);
        t.vis.join(s.msgvis);
    }
    else
    {
        t.acqp.join(s.msg);
        t.acqp_vis.join(s.msgvis);
    }
}
static void push_store(Loc* l, u64 lo, u64 hi, int mo, bool rmw)
{
    auto& t = T();
    int me = R->cur;
    Store ns;
    ns.lo = lo;
    ns.hi = hi;
    ns.tid = (u8) me;
    ns.clk = t.vc.c[me];
    if (is_rel(mo))
    {
        ns.msg = t.vc;
        ns.msgvis = t.vis;
    }
    else
    {
        ns.msg = t.relf;
        ns.msgvis = t.relf_vis;
    }
    if (rmw && l->nst)
    {
        const Store& p = l->st[(l->nst - 1) % NST];
        ns.msg.join(p.msg);
        ns.msgvis.join(p.msgvis);
    }
    l->st[l->nst % NST] = ns;
    l->nst++;
    if (is_rel(mo) || R->opt.stale_reads)
    {
        t.vc.c[me]++;
        t.vis.c[me] = t.vc.c[me];
    }
    write_event();
}
static int pick_store(Loc* l, int mo)
{
    // returns sequence index (into mo order) of the store to read
    u32 latest = l->nst - 1;
    if (!R->opt.stale_reads || !l->known_shared) return (int) latest;
    auto& t = T();
    u32 lo = l->nst > NST ? l->nst - NST : 0;
    for (u32 i = latest;; i--)
    {
        Store& s = l->st[i % NST];
        if (s.clk == 0 || s.clk <= t.vis.c[s.tid])
        {
            if (i > lo) lo = i;
            break;
        }
        if (i == lo) break;
    }
    for (int r = 0; r < MAXT; r++)
        if (l->rclk[r] && l->rclk[r] <= t.vis.c[r] && l->rseq[r] > lo) lo = l->rseq[r];
    (void) mo;
    if (lo >= latest) return (int) latest;
    int c = choose_impl((int) (latest - lo + 1), 1, "stale-read");
    return (int) latest - c;
}

template<class U>
static U a_load(const volatile U* a, int mo, void* pc)
{
    if (!act()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
    u64 cv = 0;
    memcpy(&cv, (const void*) a, sizeof(U) < 8 ? sizeof(U) : 8);
    Loc* l = pre_atomic((const void*) a, sizeof(U), true, cv, "atomic-load", pc);
    if (!addressable_fast((uintptr_t) a, sizeof(U))) bad_access((uintptr_t) a, sizeof(U), "atomic load", pc);
    mem_access((const void*) a, sizeof(U), 2, pc);
    note_loc(l, false);
    sync_baseline(l, (const void*) a, sizeof(U));
    if (mo == mo_seq_cst) sc_op();
    int i = pick_store(l, mo);
    Store& s = l->st[i % NST];
    U v;
    memcpy(&v, &s.lo, sizeof(U));
    if (sizeof(U) == 16) memcpy((char*) &v + 8, &s.hi, 8);
    do_acquire(s, mo);
    auto& t = T();
    l->rseq[R->cur] = (u32) i;
    l->rclk[R->cur] = t.vc.c[R->cur];
    if (R->opt.stale_reads)
    {
        t.vc.c[R->cur]++;
        t.vis.c[R->cur] = t.vc.c[R->cur];
    }
    t.last_load = (const void*) a;
    t.last_load_pc = pc;
    t.last_load_wc = R->wcount;
    memcpy(&cv, (const void*) a, sizeof(U) < 8 ? sizeof(U) : 8);
    t.last_val = cv;
    if (R->trace && l->known_shared) tr("load %p mo=%d -> %llx%s", (void*) a, mo, (unsigned long long) s.lo, (u32) i + 1 == l->nst ? "" : " (stale)");
    return v;
}
template<class U>
static void a_store(volatile U* a, U v, int mo, void* pc)
{
    if (!act())
    {
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
        return;
    }
    Loc* l = pre_atomic((const void*) a, sizeof(U), false, 0, "atomic-store");
    if (!addressable_fast((uintptr_t) a, sizeof(U))) bad_access((uintptr_t) a, sizeof(U), "atomic store", pc);
    mem_access((const void*) a, sizeof(U), 3, pc);
    note_loc(l, true);
    sync_baseline(l, (const void*) a, sizeof(U));
    if (mo == mo_seq_cst) sc_op();
    *a = v;
    u64 w[2] = {0, 0};
    memcpy(w, &v, sizeof(U));
    push_store(l, w[0], w[1], mo, false);
    if (mo == mo_seq_cst) sc_op();
    T().last_load = nullptr;
    if (R->trace && l->known_shared) tr("store %p mo=%d <- %llx", (void*) a, mo, (unsigned long long) w[0]);
}
template<class U, class F>
static U a_rmw(volatile U* a, int mo, void* pc, F f)
{
    if (!act())
    {
        U o = __atomic_load_n(a, __ATOMIC_SEQ_CST), n;
        do n = f(o);
        while (!__atomic_compare_exchange_n(a, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
        return o;
    }
    Loc* l = pre_atomic((const void*) a, sizeof(U), false, 0, "atomic-rmw");
    if (!addressable_fast((uintptr_t) a, sizeof(U))) bad_access((uintptr_t) a, sizeof(U), "atomic rmw", pc);
    mem_access((const void*) a, sizeof(U), 3, pc);
    note_loc(l, true);
    sync_baseline(l, (const void*) a, sizeof(U));
    if (mo == mo_seq_cst) sc_op();
    U o = *a;
    U n = f(o);
    do_acquire(l->st[(l->nst - 1) % NST], mo);
    *a = n;
    u64 w[2] = {0, 0};
    memcpy(w, &n, sizeof(U));
    push_store(l, w[0], w[1], mo, true);
    if (mo == mo_seq_cst) sc_op();
    T().last_load = nullptr;
    if (R->trace && l->known_shared)
    {
        u64 ow = 0;
        memcpy(&ow, &o, sizeof(U) < 8 ? sizeof(U) : 8);
        tr("rmw %p mo=%d %llx -> %llx", (void*) a, mo, (unsigned long long) ow, (unsigned long long) w[0]);
    }
    return o;
}
template<class U>
static bool a_cas(volatile U* a, U* e, U d, int mo, int fmo, bool weak, void* pc)
{
    if (!act()) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    Loc* l = pre_atomic((const void*) a, sizeof(U), false, 0, "atomic-cas");
    if (!addressable_fast((uintptr_t) a, sizeof(U))) bad_access((uintptr_t) a, sizeof(U), "atomic cas", pc);
    mem_access((const void*) a, sizeof(U), 3, pc);
    note_loc(l, true);
    sync_baseline(l, (const void*) a, sizeof(U));
    U o = *a;
    bool ok = memcmp(&o, e, sizeof(U)) == 0;
    if (ok && weak && R->opt.spurious_cas && l->known_shared && choose_impl(2, 1, "spurious-cas") == 1) ok = false;
    int m = ok ? mo : fmo;
    if (m == mo_seq_cst) sc_op();
    do_acquire(l->st[(l->nst - 1) % NST], m);
    if (ok)
    {
        *a = d;
        u64 w[2] = {0, 0};
        memcpy(w, &d, sizeof(U));
        push_store(l, w[0], w[1], mo, true);
        if (mo == mo_seq_cst) sc_op();
    }
    else
    {
        l->rseq[R->cur] = l->nst - 1;
        l->rclk[R->cur] = T().vc.c[R->cur];
        *e = o;
    }
    T().last_load = nullptr;
    if (R->trace && l->known_shared) tr("cas %p mo=%d %s", (void*) a, mo, ok ? "ok" : "failed");
    return ok;
}
static void fence(int mo)
{
    if (!act())
    {
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        return;
    }
    auto& t = T();
    if (is_acq(mo))
    {
        t.vc.join(t.acqp);
        t.vis.join(t.acqp_vis);
    }
    if (mo == mo_seq_cst) sc_op();
    if (is_rel(mo))
    {
        t.relf = t.vc;
        t.relf_vis = t.vis;
        t.vc.c[R->cur]++;
        t.vis.c[R->cur] = t.vc.c[R->cur];
    }
}
static void drop_locs(uintptr_t a, size_t n)
{
    // a plain write over a tracked atomic object (typically its construction): forget the history
    if (n > 256)
    {
        return;
    }
    for (uintptr_t x = a & ~3ull; x < a + n; x += 4)
        if (Loc* l = loc_find(x)) l->nst = 0;
}

// ------------------------------------------------------------------ tsan entry points
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(N)                                                                          \
    void __tsan_read##N(void* a)                                                       \
    {                                                                                  \
        if (act()) mem_access(a, N, 0, PC());                                          \
    }                                                                                  \
    void __tsan_write##N(void* a)                                                      \
    {                                                                                  \
        if (act())                                                                     \
        {                                                                              \
            mem_access(a, N, 1, PC());                                                 \
            if (R->opt.stale_reads) drop_locs((uintptr_t) a, N);                       \
        }                                                                              \
    }                                                                                  \
    void __tsan_unaligned_read##N(void* a)                                             \
    {                                                                                  \
        if (act()) mem_access(a, N, 0, PC());                                          \
    }                                                                                  \
    void __tsan_unaligned_write##N(void* a)                                            \
    {                                                                                  \
        if (act()) mem_access(a, N, 1, PC());                                          \
    }                                                                                  \
    void __tsan_read_write##N(void* a)                                                 \
    {                                                                                  \
        if (act()) mem_access(a, N, 1, PC());                                          \
    }                                                                                  \
    void __tsan_volatile_read##N(void* a)                                              \
    {                                                                                  \
        if (act()) mem_access(a, N, 0, PC());                                          \
    }                                                                                  \
    void __tsan_volatile_write##N(void* a)                                             \
    {                                                                                  \
        if (act()) mem_access(a, N, 1, PC());                                          \
    }                                                                                  \
    void __tsan_unaligned_volatile_read##N(void* a)                                    \
    {                                                                                  \
        if (act()) mem_access(a, N, 0, PC());                                          \
    }                                                                                  \
    void __tsan_unaligned_volatile_write##N(void* a)                                   \
    {                                                                                  \
        if (act()) mem_access(a, N, 1, PC());                                          \
    }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_read_range(void* a, size_t n)
    {
        if (act()) mem_access(a, n, 0, PC());
    }
    void __tsan_write_range(void* a, size_t n)
    {
        if (act()) mem_access(a, n, 1, PC());
    }
    void __tsan_vptr_update(void** a, void* v)
    {
        if (act() && *a != v) mem_access(a, 8, 1, PC());
    }
    void __tsan_vptr_read(void** a)
    {
        if (act()) mem_access(a, 8, 0, PC());
    }
    void* __tsan_memcpy(void* d, const void* s, size_t n)
    {
        if (act())
        {
            mem_access(s, n, 0, PC());
            mem_access(d, n, 1, PC());
            if (R->opt.stale_reads) drop_locs((uintptr_t) d, n);
            if (d != s && (uintptr_t) d < (uintptr_t) s + n && (uintptr_t) s < (uintptr_t) d + n) rt_fail("memcpy of %zu bytes between overlapping regions", n);
        }
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, size_t n)
    {
        if (act())
        {
            mem_access(s, n, 0, PC());
            mem_access(d, n, 1, PC());
            if (R->opt.stale_reads) drop_locs((uintptr_t) d, n);
        }
        return memmove(d, s, n);
    }
    // linked with --wrap: scans stop at the first match, as the C library promises
    void* __real_memchr(const void* p, int c, size_t n);
    void* __wrap_memchr(const void* p, int c, size_t n)
    {
        if (!act()) return __real_memchr(p, c, n);
        auto* b = (const unsigned char*) p;
        for (size_t i = 0; i < n; i++)
        {
            if (!addressable_fast((uintptr_t) (b + i), 1)) bad_access((uintptr_t) (b + i), 1, "memchr", PC());
            if (b[i] == (unsigned char) c) return (void*) (b + i);
        }
        return nullptr;
    }
    int __real_memcmp(const void* a, const void* b, size_t n);
    int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        if (act())
        {
            mem_access(a, n, 0, PC());
            mem_access(b, n, 0, PC());
        }
        return __real_memcmp(a, b, n);
    }
    void* __tsan_memset(void* d, int c, size_t n)
    {
        if (act())
        {
            mem_access(d, n, 1, PC());
            if (R->opt.stale_reads) drop_locs((uintptr_t) d, n);
        }
        return memset(d, c, n);
    }
#define ATOM(B, U)                                                                                                                                           \
    U __tsan_atomic##B##_load(const volatile U* a, int mo) { return a_load<U>(a, mo, PC()); }                                                              \
    void __tsan_atomic##B##_store(volatile U* a, U v, int mo) { a_store<U>(a, v, mo, PC()); }                                                              \
    U __tsan_atomic##B##_exchange(volatile U* a, U v, int mo)                                                                                              \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U) { return v; });                                                                                                  \
    }                                                                                                                                                        \
    U __tsan_atomic##B##_fetch_add(volatile U* a, U v, int mo)                                                                                             \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U o) { return (U) (o + v); });                                                                                      \
    }                                                                                                                                                        \
    U __tsan_atomic##B##_fetch_sub(volatile U* a, U v, int mo)                                                                                             \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U o) { return (U) (o - v); });                                                                                      \
    }                                                                                                                                                        \
    U __tsan_atomic##B##_fetch_and(volatile U* a, U v, int mo)                                                                                             \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U o) { return (U) (o & v); });                                                                                      \
    }                                                                                                                                                        \
    U __tsan_atomic##B##_fetch_or(volatile U* a, U v, int mo)                                                                                              \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U o) { return (U) (o | v); });                                                                                      \
    }                                                                                                                                                        \
    U __tsan_atomic##B##_fetch_xor(volatile U* a, U v, int mo)                                                                                             \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U o) { return (U) (o ^ v); });                                                                                      \
    }                                                                                                                                                        \
    U __tsan_atomic##B##_fetch_nand(volatile U* a, U v, int mo)                                                                                            \
    {                                                                                                                                                        \
        return a_rmw<U>(a, mo, PC(), [v](U o) { return (U) ~(o & v); });                                                                                     \
    }                                                                                                                                                        \
    int __tsan_atomic##B##_compare_exchange_strong(volatile U* a, U* e, U d, int mo, int f) { return a_cas<U>(a, e, d, mo, f, false, PC()); }              \
    int __tsan_atomic##B##_compare_exchange_weak(volatile U* a, U* e, U d, int mo, int f) { return a_cas<U>(a, e, d, mo, f, true, PC()); }                 \
    U __tsan_atomic##B##_compare_exchange_val(volatile U* a, U e, U d, int mo, int f)                                                                      \
    {                                                                                                                                                        \
        U o = e;                                                                                                                                             \
        a_cas<U>(a, &o, d, mo, f, false, PC());                                                                                                              \
        return o;                                                                                                                                            \
    }
    ATOM(8, u8)
    ATOM(16, u16)
    ATOM(32, u32)
    ATOM(64, u64)
    void __tsan_atomic_thread_fence(int mo) { fence(mo); }
    void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ sync objects
static SyncObj* sync_for(const void* p)
{
    uintptr_t a = (uintptr_t) p;
    u32 h = (u32) ((a * 0x9E3779B97F4A7C15ull) >> 44) & (NSYNC - 1);
    for (u32 i = 0; i < 256; i++)
    {
        SyncObj* l = &R->sync[(h + i) & (NSYNC - 1)];
        if (l->gen != R->gen)
        {
            l->gen = R->gen;
            l->key = a;
            l->vc.clear();
            l->owner = l->count = 0;
            l->waiters = 0;
            return l;
        }
        if (l->key == a) return l;
    }
    fprintf(stderr, "mcrt: sync table full\n");
    _exit(4);
}
static void hb_rel(SyncObj* s)
{
    auto& t = T();
    s->vc.join(t.vc);
    t.vc.c[R->cur]++;
    t.vis.c[R->cur] = t.vc.c[R->cur];
}
static void hb_acq(SyncObj* s)
{
    T().vc.join(s->vc);
    T().vis.join(s->vc);
}
// scheduling point on a sync object, only if it is known to be shared
static void sync_point(const void* key, const char* label)
{
    Loc* l = loc_for(key, 1);
    note_loc(l, true);
    if (l->known_shared)
        sched_point(label);
    else
        step();
    T().last_load = nullptr;
}

extern "C"
{
    int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
    {
        if (!act()) return real_pthread_create(out, at, fn, arg);
        if (mc::rt::thread_fault)
        {
            mc::rt::Guard g;
            if (mc::rt::thread_fault()) return errno;
        }
        int id = new_thread(fn, arg);
        auto& n = R->t[id];
        auto& t = T();
        n.vc.join(t.vc);
        n.vis.join(t.vis);
        n.vc.c[id] = 1;
        n.vis.c[id] = 1;
        t.vc.c[R->cur]++;
        t.vis.c[R->cur] = t.vc.c[R->cur];
        *out = (pthread_t) (0x1000 + id);
        if (at)
        {
            int ds = 0;
            pthread_attr_getdetachstate(at, &ds);
            if (ds == PTHREAD_CREATE_DETACHED) n.detached = true;
        }
        if (R->trace) tr("creates T%d", id);
        write_event();
        sched_point("thread-create");
        return 0;
    }
    int pthread_join(pthread_t h, void** ret)
    {
        if (!act()) return real_pthread_join(h, ret);
        int id = (int) ((u64) h - 0x1000);
        if (id < 0 || id >= R->nthreads || id == R->cur) rt_fail("pthread_join of an invalid thread / self");
        sched_point("join");
        while (R->t[id].st != FINISHED) block_on(&R->t[id], ~0ull, "pthread_join");
        T().vc.join(R->t[id].final_vc);
        T().vis.join(R->t[id].final_vc);
        if (ret) *ret = R->t[id].ret;
        return 0;
    }
    int pthread_detach(pthread_t h)
    {
        if (!act()) return real_pthread_detach(h);
        R->t[(u64) h - 0x1000].detached = true;
        return 0;
    }
    pthread_t pthread_self() noexcept
    {
        if (!act()) return real_pthread_self ? real_pthread_self() : (pthread_t) rdfs();
        return (pthread_t) (0x1000 + R->cur);
    }
    int pthread_setaffinity_np(pthread_t h, size_t n, const cpu_set_t* s) noexcept
    {
        if (!act()) return real_setaffinity(h, n, s);
        return 0;
    }
    int get_nprocs() noexcept { return 4; }

    // mutexes
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!act()) return real_mutex_lock ? real_mutex_lock(m) : 0;
        sync_point(m, "mutex-lock");
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        int kind = m->__data.__kind & 3;
        if (s->owner == R->cur + 1)
        {
            if (kind == PTHREAD_MUTEX_RECURSIVE)
            {
                s->count++;
                return 0;
            }
            rt_fail("self-deadlock: mutex locked again by its owner");
        }
        while (s->owner)
        {
            block_on(m, ~0ull, "mutex-lock");
            s = sync_for(m);
        }
        s->owner = R->cur + 1;
        s->count = 1;
        hb_acq(s);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!act()) return real_mutex_trylock(m);
        sync_point(m, "mutex-trylock");
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        int kind = m->__data.__kind & 3;
        if (s->owner)
        {
            if (s->owner == R->cur + 1 && kind == PTHREAD_MUTEX_RECURSIVE)
            {
                s->count++;
                return 0;
            }
            return EBUSY;
        }
        s->owner = R->cur + 1;
        s->count = 1;
        hb_acq(s);
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!act()) return real_mutex_unlock ? real_mutex_unlock(m) : 0;
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        if (s->owner != R->cur + 1) rt_fail("mutex unlocked by a thread that does not own it");
        if (--s->count > 0) return 0;
        hb_rel(s);
        s->owner = 0;
        wake_key(m, MAXT);
        write_event();
        sync_point(m, "mutex-unlock");
        return 0;
    }
    static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
    {
        SyncObj* s = sync_for(m);
        if (s->owner != R->cur + 1) rt_fail("condition wait without owning the mutex");
        mem_access(c, 1, 2, PC());
        int cnt = s->count;
        hb_rel(s);
        s->owner = 0;
        wake_key(m, MAXT);
        write_event();
        Loc* l = loc_for(c, 1);
        note_loc(l, true);
        bool ok = block_on(c, deadline, "condition-wait");
        pthread_mutex_lock(m);
        sync_for(m)->count = cnt;
        return ok ? 0 : ETIMEDOUT;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!act()) return real_cond_wait(c, m);
        return cond_wait_impl(c, m, ~0ull);
    }
    static u64 abs_to_virtual(clockid_t clk, const timespec* ts)
    {
        int64_t v = (int64_t) ts->tv_sec * 1000000000ll + ts->tv_nsec;
        if (clk == CLOCK_REALTIME) v -= R->wall_off;
        return v < 0 ? 0 : (u64) v;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
    {
        if (!act()) return real_cond_timedwait(c, m, ts);
        return cond_wait_impl(c, m, abs_to_virtual(CLOCK_REALTIME, ts));
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts)
    {
        if (!act()) return real_cond_clockwait(c, m, clk, ts);
        return cond_wait_impl(c, m, abs_to_virtual(clk, ts));
    }
    static void cond_wake(pthread_cond_t* c, int max)
    {
        sync_point(c, "cond-signal");
        mem_access(c, 1, 2, PC());
        int w[MAXT], n = 0;
        for (int i = 0; i < R->nthreads; i++)
            if (R->t[i].st == BLOCKED && R->t[i].wait_key == c) w[n++] = i;
        if (max == 1 && n > 1)
        {
            int k = choose_impl(n, n, "cond-signal-which");
            wake(w[k]);
        }
        else
            wake_key(c, max);
        write_event();
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept
    {
        if (!act()) return real_cond_signal(c);
        cond_wake(c, 1);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept
    {
        if (!act()) return real_cond_broadcast(c);
        cond_wake(c, MAXT);
        return 0;
    }
    // rwlocks (std::shared_mutex)
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
    {
        if (!act()) return real_rw_rdlock(m);
        sync_point(m, "rdlock");
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        while (s->owner)
        {
            block_on(m, ~0ull, "rdlock");
            s = sync_for(m);
        }
        s->count++;
        hb_acq(s);
        return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
    {
        if (!act()) return real_rw_tryrdlock(m);
        sync_point(m, "tryrdlock");
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        if (s->owner) return EBUSY;
        s->count++;
        hb_acq(s);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
    {
        if (!act()) return real_rw_wrlock(m);
        sync_point(m, "wrlock");
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        while (s->owner || s->count)
        {
            block_on(m, ~0ull, "wrlock");
            s = sync_for(m);
        }
        s->owner = R->cur + 1;
        hb_acq(s);
        return 0;
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
    {
        if (!act()) return real_rw_trywrlock(m);
        sync_point(m, "trywrlock");
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        if (s->owner || s->count) return EBUSY;
        s->owner = R->cur + 1;
        hb_acq(s);
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
    {
        if (!act()) return real_rw_unlock(m);
        mem_access(m, 1, 2, PC());
        SyncObj* s = sync_for(m);
        hb_rel(s);
        if (s->owner)
            s->owner = 0;
        else if (s->count > 0)
            s->count--;
        else
            rt_fail("rwlock unlocked while not held");
        wake_key(m, MAXT);
        write_event();
        sync_point(m, "rw-unlock");
        return 0;
    }

    int sched_yield() noexcept
    {
        if (!act()) return (int) ({
            long r;
            asm volatile("syscall" : "=a"(r) : "a"(SYS_sched_yield) : "rcx", "r11", "memory");
            r;
        });
        // The first yields of a spin are no-ops (so that bounded spins fall through to their
        // blocking path); a thread that keeps yielding lets the others run.
        if (++T().yields > 20)
        {
            T().yields = 0;
            forced_yield("sched_yield");
        }
        else
            step();
        return 0;
    }
    static int vsleep(u64 ns)
    {
        block_on(nullptr, R->now + (ns ? ns : 1), "sleep");
        return 0;
    }
    int nanosleep(const timespec* r, timespec*)
    {
        if (!act())
        {
            long x;
            asm volatile("syscall" : "=a"(x) : "a"(SYS_nanosleep), "D"(r), "S"(0) : "rcx", "r11", "memory");
            return x < 0 ? -1 : 0;
        }
        return vsleep((u64) r->tv_sec * 1000000000ull + r->tv_nsec);
    }
    int clock_nanosleep(clockid_t c, int fl, const timespec* r, timespec*)
    {
        if (!act())
        {
            long x;
            register long r10 asm("r10") = 0;
            asm volatile("syscall" : "=a"(x) : "a"(SYS_clock_nanosleep), "D"(c), "S"(fl), "d"(r), "r"(r10) : "rcx", "r11", "memory");
            return (int) -x;
        }
        u64 v = (u64) r->tv_sec * 1000000000ull + r->tv_nsec;
        if (fl & TIMER_ABSTIME)
        {
            u64 d = abs_to_virtual(c, r);
            if (d > R->now) block_on(nullptr, d, "sleep");
            return 0;
        }
        return vsleep(v);
    }
    int usleep(useconds_t us)
    {
        if (!act())
        {
            timespec ts{us / 1000000, (long) (us % 1000000) * 1000};
            return nanosleep(&ts, nullptr);
        }
        return vsleep((u64) us * 1000);
    }
    int clock_gettime(clockid_t c, timespec* ts) noexcept
    {
        if (!act())
        {
            if (real_clock_gettime) return real_clock_gettime(c, ts);
            long x;
            asm volatile("syscall" : "=a"(x) : "a"(SYS_clock_gettime), "D"(c), "S"(ts) : "rcx", "r11", "memory");
            return (int) x;
        }
        R->now += R->tick;
        int64_t v = (int64_t) R->now;
        if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += R->wall_off;
        ts->tv_sec = v / 1000000000ll;
        ts->tv_nsec = v % 1000000000ll;
        return 0;
    }
    time_t time(time_t* p) noexcept
    {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (p) *p = ts.tv_sec;
        return ts.tv_sec;
    }
    int gettimeofday(timeval* tv, void*) noexcept
    {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    pid_t gettid() noexcept
    {
        if (act()) return 7000 + R->cur;
        long x;
        asm volatile("syscall" : "=a"(x) : "a"(SYS_gettid) : "rcx", "r11", "memory");
        return (pid_t) x;
    }

    static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
    {
        long r;
        register long r10 asm("r10") = d;
        register long r8 asm("r8") = e;
        register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (r < 0 && r > -4096)
        {
            errno = (int) -r;
            return -1;
        }
        return r;
    }
    static long vfutex(u32* addr, int op, u32 val, const timespec* to, u32 val3)
    {
        (void) val3;
        int cmd = op & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            sync_point((char*) addr + 1, "futex-wait");
            if (*(volatile u32*) addr != val)
            {
                errno = EAGAIN;
                return -1;
            }
            u64 dl = ~0ull;
            if (to)
            {
                if (cmd == FUTEX_WAIT)
                    dl = R->now + (u64) to->tv_sec * 1000000000ull + to->tv_nsec;
                else
                    dl = abs_to_virtual((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
            }
            if (!block_on(addr, dl, "futex-wait"))
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            sync_point((char*) addr + 1, "futex-wake");
            int w[MAXT], n = 0;
            for (int i = 0; i < R->nthreads; i++)
                if (R->t[i].st == BLOCKED && R->t[i].wait_key == addr) w[n++] = i;
            int k = 0;
            if ((int) val == 1 && n > 1)
            {
                k = choose_impl(n, R->opt.wake_order ? n : 1, "futex-wake-which");
                wake(w[k]);
                k = 1;
            }
            else
                k = wake_key(addr, (int) val < 0 || (int) val > MAXT ? MAXT : (int) val);
            write_event();
            return k;
        }
        rt_fail("unsupported futex operation %d", cmd);
    }
    long syscall(long n, ...) noexcept
    {
        va_list ap;
        va_start(ap, n);
        long a[6];
        for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
        va_end(ap);
        if (act())
        {
            if (n == SYS_futex) return vfutex((u32*) a[0], (int) a[1], (u32) a[2], (const timespec*) a[3], (u32) a[5]);
            if (n == SYS_gettid) return 7000 + R->cur;
            if (n == SYS_sched_yield) return sched_yield();
        }
        return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void*)
    {
        if (act())
        {
            auto& t = T();
            if (t.ndtors < 32) t.dtors[t.ndtors++] = {f, o};
        }
        return 0;
    }
    void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept
    {
        const char* b = strrchr(f, '/');
        if (R && R->active) rt_fail("assertion failed: %s (%s:%u %s)", e, b ? b + 1 : f, l, fn);
        fprintf(stderr, "assertion failed: %s (%s:%u)\n", e, f, l);
        _exit(4);
    }
    void abort() noexcept
    {
        if (R && R->active)
        {
            const char* what = "";
            static char buf[300];
            buf[0] = 0;
            R->internal++;
            if (std::type_info* ti = abi::__cxa_current_exception_type())
            {
                try
                {
                    throw;
                }
                catch (const std::exception& e)
                {
                    snprintf(buf, sizeof buf, " (uncaught exception: %s)", e.what());
                }
                catch (...)
                {
                    snprintf(buf, sizeof buf, " (uncaught exception of type %s)", ti->name());
                }
                what = buf;
            }
            R->internal--;
            rt_fail("program aborted%s", what);
        }
        _exit(134);
    }
}

// ------------------------------------------------------------------ public API
namespace mc
{
    static Scenario* g_scen;
    static void (*g_setup)();
    Scenario::Scenario(const char* n, void (*f)(), Options o) : name(n), fn(f), opt(o), next(g_scen) { g_scen = this; }
    void set_setup(void (*fn)()) { g_setup = fn; }
    int choose(int n, const char* label) { return act() ? choose_impl(n, 1, label) : 0; }
    int choose_free(int n, const char* label) { return act() ? choose_impl(n, n, label) : 0; }
    void fail(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        char b[3500];
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (!R || !R->active)
        {
            fprintf(stderr, "mc::fail outside an execution: %s\n", b);
            _exit(4);
        }
        rt_fail("%s", b);
    }
    static int known_index(const char* key)
    {
        const char* k = getenv("MC_KNOWN");
        for (int i = 0; k && *k && i < 32; i++)
        {
            const char* e = strchrnul(k, ',');
            if (strlen(key) == (size_t) (e - k) && !memcmp(k, key, (size_t) (e - k))) return i;
            k = *e ? e + 1 : e;
        }
        return -1;
    }
    void known_or_fail(const char* key, const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        char b[3500];
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        int i = known_index(key);
        if (i < 0) fail("[%s] %s", key, b);
        S->known_hit[i]++;
    }
    void outcome(const std::string& s)
    {
        if (!R || !R->active) return;
        R->internal++;
        u64 h = 1469598103934665603ull;
        for (char c: s) h = (h ^ (u8) c) * 1099511628211ull;
        if (!h) h = 1;
        u32 i = (u32) h & 0xffff;
        for (u32 k = 0; k < 4096; k++)
        {
            u64 v = S->outc[(i + k) & 0xffff].load();
            if (v == h) break;
            if (!v)
            {
                u64 e = 0;
                if (S->outc[(i + k) & 0xffff].compare_exchange_strong(e, h))
                {
                    S->n_outcomes++;
                    S->olock.lock();
                    if (S->nsample < 24) snprintf(S->sample[S->nsample++], 400, "%s", s.c_str());
                    S->olock.unlock();
                    break;
                }
                if (e == h) break;
            }
        }
        R->internal--;
    }
    void count_states(uint64_t n)
    {
        R->mstates += n;
        if (R->slot) R->slot->beat++;
    }
    void count_transitions(uint64_t n) { R->mtrans += n; }
    void log(const char* fmt, ...)
    {
        if (!R || !R->trace) return;
        R->internal++;
        va_list ap;
        va_start(ap, fmt);
        fprintf(R->trace, "T%d: ", R->cur);
        vfprintf(R->trace, fmt, ap);
        fputc('\n', R->trace);
        va_end(ap);
        R->internal--;
    }
    bool replaying() { return R && R->trace; }
    uint64_t now_ns() { return R->now; }
    void advance_ns(uint64_t d) { R->now += d; }
    void set_clock_tick(uint64_t d) { R->tick = d; }
    void set_wall_offset(int64_t d) { R->wall_off = d; }
    int self() { return R->cur; }
    void yield()
    {
        if (act()) forced_yield("yield");
    }
    uint64_t live_allocs() { return R->live; }
    Trial::Trial(const char* w) : bump(T().bump), live(R->live), what(w) {}
    Trial::~Trial() noexcept(false)
    {
        if (R->live != live) rt_fail("%s: %lld heap blocks were not released", what, (long long) (R->live - live));
        auto& t = T();
        uintptr_t base = ARENA_BASE + ARENA_PER * R->cur;
        if (t.bump > bump) memset(&R->amap[(base + bump - ARENA_BASE) >> 3], 0, (t.bump - bump) / 8 + 1);
        t.bump = bump;
    }
    bool addressable(const void* p, size_t n) { return addressable_fast((uintptr_t) p, n); }
    bool in_execution() { return R && R->active; }
    void set_horizon(uint64_t s) { R->horizon = s; }
    void ignore_range(const void* p, size_t n)
    {
        if (R->nign < 16) R->ign[R->nign++] = {(uintptr_t) p, n};
    }
    Persistent::Persistent()
    {
        if (R) R->persist++;
    }
    Persistent::~Persistent()
    {
        if (R) R->persist--;
    }
    namespace rt
    {
        Guard::Guard()
        {
            if (R) R->internal++;
        }
        Guard::~Guard()
        {
            if (R) R->internal--;
        }
        Unguard::Unguard() : saved(R ? R->internal : 0)
        {
            if (R) R->internal = 0;
        }
        Unguard::~Unguard()
        {
            if (R) R->internal = saved;
        }
        void point(const char* what, const void* key)
        {
            if (act()) sync_point(key, what);
        }
        bool block(const void* key, uint64_t deadline, const char* what)
        {
            int in = R->internal;
            R->internal = 0;
            bool r = block_on(key, deadline, what);
            R->internal = in;
            return r;
        }
        void wake_all(const void* key)
        {
            wake_key(key, MAXT);
            ::write_event();
        }
        void write_event() { ::write_event(); }
        void hb_release(const void* key) { hb_rel(sync_for(key)); }
        void hb_acquire(const void* key) { hb_acq(sync_for(key)); }
        void check_access(const void* p, size_t n, bool write, const char* what)
        {
            if (!R || !R->active) return;
            if (!addressable_fast((uintptr_t) p, n)) rt_fail("%s: kernel %s of %zu bytes for %s", why_bad((uintptr_t) p, n), write ? "write" : "read", n, what);
        }
        bool active() { return R && R->active; }
        bool (*thread_fault)() = nullptr;
        void on_reset(void (*fn)())
        {
            if (R->nresets < 8) R->resets[R->nresets++] = fn;
        }
    }  // namespace rt
}  // namespace mc

namespace mc::rt
{
    void fakekern_register() __attribute__((weak));
}
// ------------------------------------------------------------------ execution
static void one_execution(void (*body)(), const mc::Options& opt)
{
    R->gen++;
    R->opt = opt;
    R->horizon = opt.horizon;
    R->steps = 0;
    R->np = 0;
    R->cost = 0;
    R->failed = false;
    R->internal = 0;
    R->persist = 0;
    R->live = R->live_bytes = 0;
    R->now = 1000ull * 1000000000ull;
    R->tick = 0;
    R->wall_off = 1700000000ll * 1000000000ll;
    R->wcount = 1;
    R->sc_vis.clear();
    R->nign = 0;
    for (int i = 0; i < R->nthreads; i++)
    {
        // clear the part of the heap map used by the previous execution
        if (R->t[i].bump) memset(&R->amap[(ARENA_PER * i) >> 3], 0, (R->t[i].bump >> 3) + 8);
        R->t[i].bump = 0;
    }
    for (int i = 0; i < R->nseg; i++) memcpy(R->seg[i].p, R->seg[i].copy, R->seg[i].n);
    for (int i = 0; i < R->nresets; i++) R->resets[i]();
    R->nthreads = 0;
    R->body = body;
    R->explorer_fs = rdfs();
    new_thread(nullptr, nullptr);
    R->cur = 0;
    R->active = true;
    wrfs(R->t[0].fsbase);
    mc_switch(&R->explorer_sp, R->t[0].sp);
    R->active = false;
    R->internal = 0;
    if (R->slot) R->slot->beat++;
    S->execs++;
    S->points += R->np;
    S->steps += R->steps;
    S->sched_points += R->sched_points;
    S->mstates += R->mstates;
    S->mtrans += R->mtrans;
    R->mstates = R->mtrans = R->sched_points = 0;
    u64 m = S->maxpoints.load();
    while (R->np > m && !S->maxpoints.compare_exchange_weak(m, R->np)) {}
    m = S->maxthreads.load();
    while ((u64) R->nthreads > m && !S->maxthreads.compare_exchange_weak(m, R->nthreads)) {}
}

static void record_failure()
{
    S->flock.lock();
    if (!S->failed.load())
    {
        memcpy(S->msg, R->msg, sizeof S->msg);
        S->fail_n = R->np;
        for (u32 i = 0; i < R->np; i++) S->fail_ch[i] = R->pt[i].c;
        S->failed = 1;
    }
    S->flock.unlock();
    S->stop = 1;
}

static void crash_handler(int sig, siginfo_t* si, void*)
{
    if (R && S)
    {
        bool stk = si->si_addr && in_stack(si->si_addr);
        snprintf(R->msg, sizeof R->msg, "crash: signal %d (%s)%s", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "SIGABRT", stk ? " stack overflow" : "");
        if (R->trace)
        {
            fprintf(R->trace, "T%d: FAIL %s\n", R->cur, R->msg);
            fflush(R->trace);
        }
        if (R->active || R->failed)
        {
            record_failure();
            _exit(3);
        }
    }
    char b[200];
    int n = snprintf(b, sizeof b, "mcrt: internal crash, signal %d\n", sig);
    if (::write(2, b, n) < 0) {}
    _exit(4);
}
static void install_handlers()
{
    stack_t ss{};
    ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
    for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

struct Run
{
    int ref;
    std::vector<u16> ch, ns;
};
struct Item
{
    Run* run;  // choices [0,i) come from the run
    u32 i;
    u16 alt;
    u8 cost;
};

static u64 us_now()
{
    timespec ts;
    real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return (u64) ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}

// global stack: entries appended, each followed by its byte length
static bool gpush(const u16* ch, const u16* ns, u32 n, u8 cost)
{
    size_t need = (size_t) n * 4 + 1 + 4;
    S->glock.lock();
    bool ok = S->gtop + need < GBUF;
    if (ok)
    {
        u8* p = S->gbuf + S->gtop;
        memcpy(p, ch, n * 2);
        memcpy(p + n * 2, ns, n * 2);
        p[n * 4] = cost;
        memcpy(p + n * 4 + 1, &n, 4);
        S->gtop += need;
        S->gcount++;
    }
    S->glock.unlock();
    return ok;
}
static bool gpop(std::vector<u16>& ch, std::vector<u16>& ns, u8& cost)
{
    bool ok = false;
    S->glock.lock();
    if (S->gtop)
    {
        u32 n;
        memcpy(&n, S->gbuf + S->gtop - 4, 4);
        size_t need = (size_t) n * 4 + 5;
        u8* p = S->gbuf + S->gtop - need;
        ch.resize(n);
        ns.resize(n);
        if (n) memcpy(ch.data(), p, n * 2);
        if (n) memcpy(ns.data(), p + n * 2, n * 2);
        cost = p[n * 4];
        S->gtop -= need;
        S->gcount--;
        ok = true;
    }
    S->glock.unlock();
    return ok;
}

static void worker_main(int wi, mc::Scenario* sc, int bound)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    install_handlers();
    memset(R->t, 0, sizeof R->t);
    R->nparked = 0;
    R->nthreads = 0;
    R->slot = &S->w[wi];
    park_threads(4);
    std::vector<Item> st;
    std::vector<u16> ch, ns;
    bool idle = false;
    for (;;)
    {
        if (S->stop.load()) break;
        if (us_now() > S->deadline_us)
        {
            S->capped = 1;
            S->stop = 1;
            break;
        }
        u8 cost = 0;
        bool have = false;
        if (!st.empty())
        {
            Item it = st.back();
            st.pop_back();
            ch.assign(it.run->ch.begin(), it.run->ch.begin() + it.i);
            ns.assign(it.run->ns.begin(), it.run->ns.begin() + it.i + 1);
            ch.push_back(it.alt);
            cost = it.cost;
            if (--it.run->ref == 0) delete it.run;
            have = true;
        }
        else if (gpop(ch, ns, cost))
            have = true;
        if (!have)
        {
            if (!idle)
            {
                idle = true;
                S->idle++;
            }
            if (S->idle.load() == S->nworkers.load() && S->gcount.load() == 0) break;
            usleep(100);
            R->slot->beat++;
            continue;
        }
        if (idle)
        {
            idle = false;
            S->idle--;
        }
        R->prefix = ch.data();
        R->prefn = ns.data();
        R->plen = (u32) ch.size();
        one_execution(sc->fn, sc->opt);
        if (R->failed)
        {
            record_failure();
            _exit(3);
        }
        if (R->np < R->plen)
        {
            snprintf(R->msg, sizeof R->msg, "MCRT-DIVERGENCE: execution ended after %u of %u prescribed choices", R->np, R->plen);
            record_failure();
            _exit(3);
        }
        // children
        Run* run = nullptr;
        int acc = cost;
        for (u32 i = R->plen; i < R->np; i++)
        {
            PointRec p = R->pt[i];
            for (int alt = p.n - 1; alt >= 1; alt--)
            {
                int c = acc + (alt >= p.free_upto ? 1 : 0);
                if (c > bound) continue;
                if (!run)
                {
                    run = new Run;
                    run->ref = 0;
                    run->ch.resize(R->np);
                    run->ns.resize(R->np);
                    for (u32 k = 0; k < R->np; k++)
                    {
                        run->ch[k] = R->pt[k].c;
                        run->ns[k] = R->pt[k].n;
                    }
                }
                run->ref++;
                st.push_back({run, i, (u16) alt, (u8) c});
            }
        }
        // share work: hand out the shallowest items
        if (S->gcount.load() < (u32) S->nworkers.load() && st.size() > 1)
        {
            size_t give = st.size() / 2 < 8 ? st.size() / 2 : 8;
            size_t k = 0;
            for (; k < give; k++)
            {
                Item it = st[k];
                std::vector<u16> c2(it.run->ch.begin(), it.run->ch.begin() + it.i);
                std::vector<u16> n2(it.run->ns.begin(), it.run->ns.begin() + it.i + 1);
                c2.push_back(it.alt);
                if (!gpush(c2.data(), n2.data(), (u32) c2.size(), it.cost)) break;
                if (--it.run->ref == 0) delete it.run;
            }
            st.erase(st.begin(), st.begin() + k);
        }
    }
    _exit(0);
}

static void jesc(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++)
    {
        u8 c = (u8) *s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

static int phdr_cb(dl_phdr_info* i, size_t, void*)
{
    // first callback is the main program
    uintptr_t relro_b = 0, relro_e = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
    {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_GNU_RELRO)
        {
            relro_b = i->dlpi_addr + p.p_vaddr;
            relro_e = (relro_b + p.p_memsz + 4095) & ~4095ull;
        }
        if (p.p_type == PT_TLS)
        {
            R->tls_size = p.p_memsz;
            R->tls_init_size = p.p_filesz;
            R->tls_init = (char*) (i->dlpi_addr + p.p_vaddr);
            if (i->dlpi_tls_data)
                R->tls_off = (int64_t) rdfs() - (int64_t) i->dlpi_tls_data;
            else
                R->tls_size = 0;
        }
    }
    for (int k = 0; k < i->dlpi_phnum; k++)
    {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
        {
            uintptr_t b = i->dlpi_addr + p.p_vaddr, e = b + p.p_memsz;
            if (relro_e > b && relro_b <= b) b = relro_e < e ? relro_e : e;
            if (b < e)
            {
                auto& s = R->seg[R->nseg++];
                s.p = (char*) b;
                s.n = e - b;
                s.copy = (char*) mmap(nullptr, s.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            }
        }
    }
    return 1;
}

template<class F>
static void res(F& f, const char* n)
{
    f = (F) dlsym(RTLD_NEXT, n);
}

static void* map_at(uintptr_t base, size_t n)
{
    void* p = mmap((void*) base, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mcrt: mmap");
        _exit(4);
    }
    return p;
}

static void init_rt()
{
    res(real_pthread_create, "pthread_create");
    res(real_pthread_join, "pthread_join");
    res(real_pthread_detach, "pthread_detach");
    res(real_pthread_self, "pthread_self");
    res(real_mutex_lock, "pthread_mutex_lock");
    res(real_mutex_trylock, "pthread_mutex_trylock");
    res(real_mutex_unlock, "pthread_mutex_unlock");
    res(real_cond_wait, "pthread_cond_wait");
    res(real_cond_timedwait, "pthread_cond_timedwait");
    res(real_cond_clockwait, "pthread_cond_clockwait");
    res(real_cond_signal, "pthread_cond_signal");
    res(real_cond_broadcast, "pthread_cond_broadcast");
    res(real_rw_rdlock, "pthread_rwlock_rdlock");
    res(real_rw_wrlock, "pthread_rwlock_wrlock");
    res(real_rw_tryrdlock, "pthread_rwlock_tryrdlock");
    res(real_rw_trywrlock, "pthread_rwlock_trywrlock");
    res(real_rw_unlock, "pthread_rwlock_unlock");
    res(real_clock_gettime, "clock_gettime");
    res(real_setaffinity, "pthread_setaffinity_np");
    S = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    RT* r = (RT*) mmap(nullptr, sizeof(RT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    map_at(ARENA_BASE, ARENA_SIZE);
    map_at(STACK_BASE, STACK_SIZE);
    for (int i = 0; i < MAXT; i++) mprotect((void*) (STACK_BASE + STACK_PER * i), 4096, PROT_NONE);
    auto anon = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    r->amap = (u8*) anon(ARENA_SIZE / 8);
    r->acell = (Cell*) anon(ARENA_SIZE / 8 * sizeof(Cell));
    r->scell = (Cell*) anon(STACK_SIZE / 8 * sizeof(Cell));
    r->gcell = (Cell*) anon(GCELLS * sizeof(Cell));
    gkeys = (GKey*) anon(GCELLS * sizeof(GKey));
    R = r;
}

static void reset_shm_stats()
{
    S->stop = 0;
    S->failed = 0;
    S->idle = 0;
    S->gtop = 0;
    S->gcount = 0;
}

// fork workers for one round. returns true if finished; sets hang info.
static bool run_round(mc::Scenario* sc, int bound, int jobs, double hang_s)
{
    reset_shm_stats();
    u16 none = 0;
    gpush(&none, &none, 0, 0);
    S->nworkers = jobs;
    std::vector<pid_t> pid(jobs);
    std::vector<u64> lastb(jobs, 0), lastt(jobs, us_now());
    for (int i = 0; i < jobs; i++) S->w[i].beat = 0;
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < jobs; i++)
    {
        pid_t p = fork();
        if (p == 0)
        {
            worker_main(i, sc, bound);
            _exit(0);
        }
        if (p < 0)
        {
            perror("fork");
            _exit(4);
        }
        pid[i] = p;
    }
    int left = jobs;
    bool internal_err = false;
    while (left)
    {
        for (int i = 0; i < jobs; i++)
        {
            if (pid[i] <= 0) continue;
            int stt;
            pid_t r = waitpid(pid[i], &stt, WNOHANG);
            if (r == pid[i])
            {
                pid[i] = 0;
                left--;
                int code = WIFEXITED(stt) ? WEXITSTATUS(stt) : 128 + WTERMSIG(stt);
                if (code != 0 && code != 3)
                {
                    internal_err = true;
                    fprintf(stderr, "mcrt: worker ended with %d\n", code);
                }
                if (code != 0)
                {
                    S->stop = 1;
                }
                continue;
            }
            u64 b = S->w[i].beat.load();
            u64 n = us_now();
            if (b != lastb[i])
            {
                lastb[i] = b;
                lastt[i] = n;
            }
            else if ((double) (n - lastt[i]) > hang_s * 1e6)
            {
                kill(pid[i], SIGKILL);
                waitpid(pid[i], &stt, 0);
                pid[i] = 0;
                left--;
                S->flock.lock();
                if (!S->failed)
                {
                    snprintf(S->msg, sizeof S->msg, "hang: an execution made no progress for %.0f s", hang_s);
                    S->fail_n = S->w[i].npoints.load();
                    memcpy(S->fail_ch, S->w[i].ch, sizeof(u16) * S->fail_n);
                    S->failed = 1;
                }
                S->flock.unlock();
                S->stop = 1;
            }
        }
        usleep(500);
    }
    if (internal_err && !S->failed)
    {
        fprintf(stderr, "mcrt: internal error in a worker\n");
        _exit(4);
    }
    return true;
}

// run one prescribed execution in a child with tracing; returns message or "" if it passed
static std::string replay_once(mc::Scenario* sc, const std::vector<u16>& ch, const char* tracefile, double limit)
{
    reset_shm_stats();
    S->nworkers = 1;
    S->w[0].npoints = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        install_handlers();
        memset(R->t, 0, sizeof R->t);
        R->nparked = 0;
        R->nthreads = 0;
        R->slot = &S->w[0];
        park_threads(4);
        if (tracefile)
        {
            R->trace = fopen(tracefile, "a");
            if (R->trace) setvbuf(R->trace, nullptr, _IOLBF, 1 << 16);
        }
        std::vector<u16> c = ch;
        R->prefix = c.data();
        R->prefn = nullptr;
        R->plen = (u32) c.size();
        one_execution(sc->fn, sc->opt);
        if (R->failed)
        {
            record_failure();
            if (R->trace) fflush(R->trace);
            _exit(3);
        }
        if (R->trace) fflush(R->trace);
        _exit(0);
    }
    u64 t0 = us_now();
    int st;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if ((double) (us_now() - t0) > limit * 1e6)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return "hang: the execution does not end";
        }
        usleep(300);
    }
    if (S->failed) return std::string(S->msg);
    return "";
}

static std::string strip_pc(std::string s)
{
    size_t p = s.find(" [pc=");
    if (p != std::string::npos) s.resize(p);
    return s;
}

static std::string symbolize(const std::string& msg, const char* exe)
{
    std::string out;
    size_t p = 0;
    while ((p = msg.find("pc=0x", p)) != std::string::npos)
    {
        std::string a = msg.substr(p + 3, msg.find_first_of(" ]", p) - p - 3);
        char cmd[600];
        snprintf(cmd, sizeof cmd, "addr2line -Cfpie %s 0x%llx 2>/dev/null", exe, (unsigned long long) strtoull(a.c_str(), 0, 16) - 1);
        if (FILE* f = popen(cmd, "r"))
        {
            char b[700];
            out += "\n  at ";
            while (fgets(b, sizeof b, f)) out += std::string("    ") + b;
            pclose(f);
        }
        p++;
    }
    return out;
}

int main(int argc, char** argv)
{
    std::string run, out, replay_dir = "/tmp", replay_file, prop = "?";
    int bound = 2, jobs = 8;
    double secs = 60, hang = 30;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--list") list = true;
        else if (a == "--run") run = nx();
        else if (a == "--bound") bound = atoi(nx().c_str());
        else if (a == "--secs") secs = atof(nx().c_str());
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--hang") hang = atof(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--replay") replay_file = nx();
        else if (a == "--property") prop = nx();
    }
    if (jobs > MAXW) jobs = MAXW;
    if (!getenv("MCRT_NOASLR"))
    {
        // best effort: stable addresses make traces and replays comparable between runs
        setenv("MCRT_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    char exe[500];
    ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[el < 0 ? 0 : el] = 0;
    if (list)
    {
        for (auto* s = mc::g_scen; s; s = s->next) printf("%s\n", s->name);
        return 0;
    }
    init_rt();
    if (mc::rt::fakekern_register) mc::rt::fakekern_register();
    if (mc::g_setup) mc::g_setup();
    dl_iterate_phdr(phdr_cb, nullptr);
    for (int i = 0; i < R->nseg; i++) memcpy(R->seg[i].copy, R->seg[i].p, R->seg[i].n);

    if (!replay_file.empty())
    {
        FILE* f = fopen(replay_file.c_str(), "r");
        if (!f)
        {
            perror("replay");
            return 4;
        }
        std::vector<u16> ch;
        char key[64];
        std::string scn;
        char buf[8192];
        while (fgets(buf, sizeof buf, f))
        {
            if (sscanf(buf, "scenario %63s", key) == 1) scn = key;
            else if (!strncmp(buf, "choices", 7))
            {
                unsigned n;
                sscanf(buf + 7, "%u", &n);
                for (unsigned k = 0; k < n; k++)
                {
                    unsigned v;
                    if (fscanf(f, "%u", &v) == 1) ch.push_back((u16) v);
                }
            }
            else if (!strncmp(buf, "shared", 6))
            {
                unsigned n;
                sscanf(buf + 6, "%u", &n);
                for (unsigned k = 0; k < n; k++)
                {
                    unsigned long long v;
                    if (fscanf(f, "%llx", &v) == 1) S->known.add(v);
                }
            }
        }
        fclose(f);
        for (auto* s = mc::g_scen; s; s = s->next)
            if (scn == s->name)
            {
                S->deadline_us = us_now() + 600ull * 1000000;
                std::string m = replay_once(s, ch, "/dev/stdout", 60);
                if (m.empty())
                {
                    printf("replay: the execution passed\n");
                    return 0;
                }
                printf("replay: reproduced: %s%s\n", m.c_str(), symbolize(m, exe).c_str());
                return 1;
            }
        printf("replay: unknown scenario %s\n", scn.c_str());
        return 4;
    }

    mc::Scenario* sc = nullptr;
    for (auto* s = mc::g_scen; s; s = s->next)
        if (run == s->name) sc = s;
    if (!sc)
    {
        fprintf(stderr, "mcrt: unknown scenario %s\n", run.c_str());
        return 4;
    }
    u64 t0 = us_now();
    S->deadline_us = t0 + (u64) (secs * 1e6);
    int completed = -1;
    std::string failmsg, replay_path;
    bool violated = false, diverged = false;
    u64 execs_completed = 0;
    int restarts = 0;
    std::string per_bound;
    for (int b = 0; b <= bound; b++)
    {
        // statistics describe the last full pass
        S->execs = S->points = S->steps = S->mstates = S->mtrans = S->sched_points = 0;
        for (;;)
        {
            run_round(sc, b, b == 0 ? (jobs > 1 ? jobs : 1) : jobs, hang);
            if (S->failed) break;
            // fixpoint of the set of shared locations
            bool grew = false;
            for (u32 i = 0; i < ShSet::N; i++)
            {
                u64 k = S->found.k[i].load();
                if (k && !S->known.has(k))
                {
                    S->known.add(k);
                    grew = true;
                }
            }
            if (S->capped) break;
            if (!grew) break;
            restarts++;
            S->execs = S->points = S->steps = S->mstates = S->mtrans = S->sched_points = 0;
            if (b > 0)
            {
                b = 0;
            }
        }
        if (S->failed)
        {
            std::string m = S->msg;
            std::vector<u16> ch(S->fail_ch, S->fail_ch + S->fail_n);
            if (m.find("MCRT-DIVERGENCE") != std::string::npos)
            {
                diverged = true;
                failmsg = m;
                break;
            }
            // replay twice before reporting
            while (!ch.empty() && ch.back() == 0) ch.pop_back();
            char path[700];
            snprintf(path, sizeof path, "%s/%s.%s.replay", replay_dir.c_str(), prop.c_str(), sc->name);
            FILE* f = fopen(path, "w");
            if (f)
            {
                fprintf(f, "# replay: %s --replay %s\nproperty %s\nscenario %s\nmessage %s\n", exe, path, prop.c_str(), sc->name, m.c_str());
                fprintf(f, "choices %zu\n", ch.size());
                for (u16 c: ch) fprintf(f, "%u ", c);
                u32 nk = 0;
                for (u32 i = 0; i < ShSet::N; i++)
                    if (S->known.k[i].load()) nk++;
                fprintf(f, "\nshared %u\n", nk);
                for (u32 i = 0; i < ShSet::N; i++)
                    if (u64 k = S->known.k[i].load()) fprintf(f, "%llx ", (unsigned long long) k);
                fprintf(f, "\ntrace\n");
                fclose(f);
            }
            std::string m1 = replay_once(sc, ch, path, hang * 2 + 30);
            std::string m2 = m1.empty() ? "" : replay_once(sc, ch, nullptr, hang * 2 + 30);
            if (m1.empty() || strip_pc(m1) != strip_pc(m2))
            {
                diverged = true;
                failmsg = "not reproducible: first [" + m + "] then [" + m1 + "] then [" + m2 + "]";
                break;
            }
            violated = true;
            failmsg = m1 + symbolize(m1, exe);
            replay_path = path;
            break;
        }
        if (S->capped) break;
        completed = b;
        execs_completed = S->execs;
        char pb[64];
        snprintf(pb, sizeof pb, "%s%llu", per_bound.empty() ? "" : ",", (unsigned long long) S->execs.load());
        per_bound += pb;
    }
    double dt = (double) (us_now() - t0) / 1e6;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) f = stdout;
    fprintf(f, "{\"scenario\":\"%s\",\"bound_requested\":%d,\"bound_completed\":%d,\"capped\":%s,\"executions\":%llu,\"executions_completed_bound\":%llu,\"choice_points\":%llu,\"steps\":%llu,\"sched_points\":%llu,\"max_points\":%llu,\"threads\":%llu,\"model_states\":%llu,\"model_transitions\":%llu,\"outcomes\":%llu,\"shared_locations\":%u,\"restarts\":%d,\"seconds\":%.2f,\"per_bound\":[%s],\"violated\":%s,\"diverged\":%s,\"message\":",
            sc->name, bound, completed, S->capped.load() ? "true" : "false", (unsigned long long) S->execs.load(), (unsigned long long) execs_completed, (unsigned long long) S->points.load(), (unsigned long long) S->steps.load(), (unsigned long long) S->sched_points.load(), (unsigned long long) S->maxpoints.load(), (unsigned long long) S->maxthreads.load(), (unsigned long long) S->mstates.load(), (unsigned long long) S->mtrans.load(), (unsigned long long) S->n_outcomes.load(), S->known.cnt.load(), restarts, dt, per_bound.c_str(), violated ? "true" : "false", diverged ? "true" : "false");
    jesc(f, failmsg.c_str());
    fprintf(f, ",\"replay\":");
    jesc(f, replay_path.c_str());
    fprintf(f, ",\"samples\":[");
    for (int i = 0; i < S->nsample; i++)
    {
        if (i) fputc(',', f);
        jesc(f, S->sample[i]);
    }
    fprintf(f, "],\"known\":[");
    for (int i = 0; i < 32; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long) S->known_hit[i].load());
    fprintf(f, "]}\n");
    fflush(f);
    if (f != stdout) fclose(f);
    fflush(stdout);
    _exit(violated ? 1 : diverged ? 2 : 0);
}
