// C07: composed coroutines behave like the same program written with plain calls: lazy start, values and
// exceptions delivered once to the awaiter, every frame destroyed exactly once, constant stack.
#include "kioh.h"
using namespace kio;
static kh::AutoSilence as_;

namespace
{
    int live = 0, started = 0;
    std::string trace;
    struct Probe  // counts frame-local objects
    {
        Probe() { live++; }
        Probe(const Probe&) { live++; }
        Probe(Probe&&) noexcept { live++; }
        ~Probe() { live--; }
    };
    struct Boom
    {
        int v;
    };
    // a manual suspension point: parks the coroutine until the driver resumes it
    struct Park
    {
        std::vector<std::coroutine_handle<>>& q;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> h) const { q.push_back(h); }
        void await_resume() const noexcept {}
    };
    std::vector<std::coroutine_handle<>>* parked;

    // a tree of tasks; each node: suspend or not, then value or throw, with 0..2 children awaited in order
    struct Node
    {
        bool park, thr, guard;  // guard: catches its children's exceptions
        int kids;
        int val;
        Node* kid[2];
    };
    Node pool[16];
    int npool;
    Node* gen(int depth)
    {
        Node* n = &pool[npool++];
        n->val = npool;
        n->park = mc::choose_free(2, "park");
        n->thr = mc::choose_free(2, "throw");
        n->guard = false;
        n->kids = depth > 0 ? mc::choose_free(3, "children") : 0;
        if (n->kids) n->guard = mc::choose_free(2, "catch");
        for (int i = 0; i < n->kids; i++) n->kid[i] = gen(i == 0 ? depth - 1 : 0);
        return n;
    }
    // the reference: the same program as plain recursion
    int model(Node* n, std::string& t)
    {
        t += "<" + std::to_string(n->val);
        int sum = n->val;
        for (int i = 0; i < n->kids; i++)
        {
            if (n->guard)
            {
                try
                {
                    sum += model(n->kid[i], t);
                }
                catch (const Boom& b)
                {
                    t += "!" + std::to_string(b.v);
                    sum += 1000 * b.v;
                }
            }
            else
                sum += model(n->kid[i], t);
        }
        if (n->thr) throw Boom{n->val};
        t += ">" + std::to_string(sum);
        return sum;
    }
    Task<void> leafvoid(Node* n, int* out);
    Task<int> node(Node* n)
    {
        Probe p;
        started++;
        mc::count_transitions(1);
        trace += "<" + std::to_string(n->val);
        if (n->park) co_await Park{*parked};
        int sum = n->val;
        for (int i = 0; i < n->kids; i++)
        {
            Node* k = n->kid[i];
            const int before = started;
            if (k->val % 2)
            {
                auto t = node(k);
                MC_CHECK(started == before, "a task started before it was awaited");
                Task<int> t2 = std::move(t);
                if (n->guard)
                {
                    bool bad = false;
                    int bv = 0;
                    try
                    {
                        sum += co_await t2;
                    }
                    catch (const Boom& b)
                    {
                        bad = true;
                        bv = b.v;
                    }
                    if (bad)
                    {
                        trace += "!" + std::to_string(bv);
                        sum += 1000 * bv;
                    }
                }
                else
                    sum += co_await t2;
            }
            else
            {
                int out = 0;
                if (n->guard)
                {
                    try
                    {
                        co_await leafvoid(k, &out);
                        sum += out;
                    }
                    catch (const Boom& b)
                    {
                        trace += "!" + std::to_string(b.v);
                        sum += 1000 * b.v;
                    }
                }
                else
                {
                    co_await leafvoid(k, &out);
                    sum += out;
                }
            }
        }
        if (n->thr) throw Boom{n->val};
        trace += ">" + std::to_string(sum);
        co_return sum;
    }
    Task<void> leafvoid(Node* n, int* out)
    {
        Probe p;
        *out = co_await node(n);
    }
    DetachedTask root(Node* n, int* result, int* fin)
    {
        Probe p;
        int r = -1;
        try
        {
            r = co_await node(n);
        }
        catch (const Boom& b)
        {
            r = -b.v;
        }
        *result = r;
        (*fin)++;
    }
    void trees(int depth)
    {
        live = started = npool = 0;
        std::vector<std::coroutine_handle<>> q;
        parked = &q;
        Node* n = gen(depth);
        std::string mt;
        int want;
        try
        {
            want = model(n, mt);
        }
        catch (const Boom& b)
        {
            want = -b.v;
        }
        trace.clear();
        const uint64_t before = mc::live_allocs();
        int got = 0, fin = 0;
        root(n, &got, &fin).detach();
        while (!q.empty())
        {
            auto h = q.back();
            q.pop_back();
            MC_CHECK(q.empty(), "more than one coroutine of one chain is suspended");
            MC_CHECK(fin == 0, "finished while a child is suspended");
            h.resume();
        }
        MC_CHECK(fin == 1, "the root finished %d times", fin);
        MC_CHECK(got == want, "result %d, expected %d", got, want);
        MC_CHECK(trace == mt, "execution order %s, expected %s", trace.c_str(), mt.c_str());
        MC_CHECK(live == 0, "%d frame-local objects not destroyed exactly once", live);
        trace.clear();
        trace.shrink_to_fit();
        mc::outcome(std::to_string(got));
        (void) before;
        parked = nullptr;
    }
    // dropped, reassigned and moved tasks
    void ownership()
    {
        live = started = npool = 0;
        std::vector<std::coroutine_handle<>> q;
        parked = &q;
        pool[0] = Node{false, false, false, 0, 3, {}};
        pool[1] = Node{true, false, false, 0, 5, {}};
        const int plan = mc::choose_free(6, "plan");
        {
            switch (plan)
            {
                case 0: { auto t = node(&pool[0]); MC_CHECK(started == 0, "eager"); break; }
                case 1:
                {
                    auto t = node(&pool[0]);
                    t = node(&pool[1]);
                    auto u = std::move(t);
                    MC_CHECK(started == 0, "eager");
                    int r = 0, f = 0;
                    auto run = [](Task<int> x, int* r, int* f) -> DetachedTask { *r = co_await x; (*f)++; };
                    run(std::move(u), &r, &f).detach();
                    MC_CHECK(q.size() == 1 && f == 0, "not suspended");
                    q[0].resume();
                    MC_CHECK(r == 5 && f == 1, "result %d", r);
                    break;
                }
                case 2:
                {
                    // destroyed while suspended in a child: the whole chain is destroyed
                    auto outer = [](Node* n) -> Task<int> { Probe p; co_return co_await node(n); };
                    auto t = outer(&pool[1]);
                    t.h_.resume();
                    MC_CHECK(live == 2 && q.size() == 1, "child not suspended");
                    break;
                }
                case 3:
                {
                    // a finished task awaited again must not run again
                    int r = 0;
                    auto run = [](int* r) -> DetachedTask
                    {
                        auto t = node(&pool[0]);
                        *r = co_await t;
                    };
                    run(&r).detach();
                    MC_CHECK(r == 3 && started == 1, "ran %d times", started);
                    break;
                }
                case 4:
                {
                    // detached tasks swallow and report exceptions without taking the program down
                    auto run = []() -> DetachedTask { Probe p; throw std::runtime_error("x"); co_return; };
                    run().detach();
                    auto run2 = []() -> DetachedTask { Probe p; throw 5; co_return; };
                    run2().detach();
                    break;
                }
                case 5:
                {
                    // self-move is harmless, moved-from tasks are empty
                    auto t = node(&pool[0]);
                    Task<int>& a = t;
                    t = std::move(a);
                    auto u = std::move(t);
                    (void) u;
                    // a detached task dropped while suspended is destroyed with everything it owns
                    auto run = [](Node* n) -> DetachedTask { Probe p; (void) co_await node(n); };
                    {
                        auto d = run(&pool[1]);
                        MC_CHECK(q.size() == 1, "not suspended");
                    }
                    break;
                }
            }
        }
        MC_CHECK(live == 0, "plan %d: %d frame-local objects not destroyed exactly once", plan, live);
        trace.clear();
        trace.shrink_to_fit();
        mc::outcome(std::to_string(plan));
        parked = nullptr;
    }
    // all short programs over two task variables: made, started, resumed, awaited, moved and dropped in any state
    enum Kind { NOW, PARKS, THROWS, CHILD };
    template<class T>
    Task<T> owned(Kind k, Probe)
    {
        Probe p;
        started++;
        if (k == PARKS) co_await Park{*parked};
        if (k == CHILD)
        {
            if constexpr (std::is_void_v<T>)
                co_await owned<T>(PARKS, Probe());
            else
                co_return 1 + co_await owned<T>(PARKS, Probe());
        }
        if (k == THROWS) throw Boom{8};
        if constexpr (!std::is_void_v<T>) co_return 7;
    }
    template<class T>
    DetachedTask take(Task<T>& t, int* got)
    {
        try
        {
            if constexpr (std::is_void_v<T>)
            {
                co_await t;
                *got = 1;
            }
            else
                *got = co_await t;
        }
        catch (const Boom& b)
        {
            *got = -b.v;
        }
    }
    template<class T>
    void owning(int depth)
    {
        live = started = 0;
        struct Var
        {
            enum { EMPTY, FRESH, PARKED, DONE } st = EMPTY;
            Kind k = NOW;
            std::coroutine_handle<> at{};
            bool taken = false;
            int probes() const { return st == EMPTY ? 0 : st == PARKED ? (k == CHILD ? 5 : 2) : 1; }  // a child was made from one more
        };
        std::vector<std::coroutine_handle<>> q;
        parked = &q;
        std::string did;
        {
            std::optional<Task<T>> t[2];
            Var v[2];
            auto check = [&] {
                MC_CHECK(live == v[0].probes() + v[1].probes(), "%s: %d objects of coroutines are alive, expected %d", did.c_str(), live, v[0].probes() + v[1].probes());
            };
            for (int step = 0; step < depth; step++)
            {
                const int op = mc::choose_free(20, "op");
                const int i = op & 1, j = 1 - i;
                if (op < 8)
                {
                    auto k = (Kind) (op / 2);
                    did += "make" + std::to_string(k) + "(" + std::to_string(i) + ") ";
                    if (t[i])
                        *t[i] = owned<T>(k, Probe());
                    else
                        t[i].emplace(owned<T>(k, Probe()));
                    v[i] = {Var::FRESH, k};
                }
                else if (op < 10)
                {
                    did += "move(" + std::to_string(i) + "," + std::to_string(j) + ") ";
                    if (!t[i]) continue;
                    if (t[j])
                        *t[j] = std::move(*t[i]);
                    else
                        t[j].emplace(std::move(*t[i]));
                    v[j] = v[i];
                    v[i] = {};
                }
                else if (op < 12)
                {
                    did += "selfmove(" + std::to_string(i) + ") ";
                    if (!t[i]) continue;
                    Task<T>& a = *t[i];
                    *t[i] = std::move(a);
                }
                else if (op < 14)
                {
                    did += "drop(" + std::to_string(i) + ") ";
                    t[i].reset();
                    v[i] = {};
                }
                else if (op < 16)
                {
                    did += "moveout(" + std::to_string(i) + ") ";
                    if (!t[i]) continue;
                    {
                        Task<T> u(std::move(*t[i]));
                        check();
                    }
                    v[i] = {};
                }
                else if (op < 18)
                {
                    // run: to the next suspension
                    did += "run(" + std::to_string(i) + ") ";
                    if (v[i].st != Var::FRESH && v[i].st != Var::PARKED) continue;
                    const int before = started;
                    if (v[i].st == Var::FRESH)
                    {
                        t[i]->h_.resume();
                        MC_CHECK(started == before + (v[i].k == CHILD ? 2 : 1), "%s: %d started", did.c_str(), started - before);
                        const bool parks = v[i].k == PARKS || v[i].k == CHILD;
                        MC_CHECK(q.size() == (parks ? 1 : 0), "%s: %zu parked", did.c_str(), q.size());
                        v[i].st = parks ? Var::PARKED : Var::DONE;
                        if (parks)
                        {
                            v[i].at = q[0];
                            q.clear();
                        }
                    }
                    else
                    {
                        v[i].at.resume();
                        MC_CHECK(started == before && q.empty(), "%s: ran again", did.c_str());
                        v[i].st = Var::DONE;
                    }
                }
                else
                {
                    // a coroutine that is over delivers its result without running again
                    did += "take(" + std::to_string(i) + ") ";
                    if (v[i].st != Var::DONE || v[i].taken) continue;
                    const int before = started;
                    int got = 0;
                    take<T>(*t[i], &got).detach();
                    const int want = v[i].k == THROWS ? -8 : std::is_void_v<T> ? 1 : v[i].k == CHILD ? 8 : 7;
                    MC_CHECK(got == want, "%s: delivered %d, expected %d", did.c_str(), got, want);
                    MC_CHECK(started == before, "%s: ran again", did.c_str());
                    v[i].taken = true;
                }
                check();
            }
        }
        MC_CHECK(live == 0, "%s: %d objects of coroutines are left", did.c_str(), live);
        parked = nullptr;
        mc::outcome("ok");
    }
    // many sequential and deeply nested awaits use constant stack
    Task<int> ready(int i) { co_return i; }
    Task<int> nest(int d, char** low)
    {
        char* here = (char*) __builtin_frame_address(0);
        if (here < *low) *low = here;
        if (d == 0) co_return 0;
        co_return 1 + co_await nest(d - 1, low);
    }
    Task<void> ready_void(int& n)
    {
        n++;
        co_return;
    }
    Task<void> nest_void(int d, int& reached, char** low)
    {
        char* here = (char*) __builtin_frame_address(0);
        if (here < *low) *low = here;
        if (d == 0) co_return;
        co_await nest_void(d - 1, reached, low);
        reached++;
        here = (char*) __builtin_frame_address(0);
        if (here < *low) *low = here;
    }
    Task<int> ready_throw(int i)
    {
        if (i >= 0) throw i;
        co_return 0;
    }
    Task<void> ready_throw_void(int i)
    {
        if (i >= 0) throw i;
        co_return;
    }
    DetachedTask longrun_void(int n, int* ran, int* caught, int* depth, char** low)
    {
        for (int i = 0; i < n; i++)
        {
            co_await ready_void(*ran);
            char* here = (char*) __builtin_frame_address(0);
            if (here < *low) *low = here;
        }
        for (int i = 0; i < n / 10; i++)
        {
            try
            {
                if (i % 2)
                    co_await ready_throw_void(i);
                else
                    co_await ready_throw(i);
            }
            catch (int v)
            {
                *caught += v == i;
            }
            char* here = (char*) __builtin_frame_address(0);
            if (here < *low) *low = here;
        }
        co_await nest_void(300, *depth, low);
    }
    DetachedTask longrun(int n, long* sum, int* depth, char** low)
    {
        for (int i = 0; i < n; i++)
        {
            *sum += co_await ready(i);
            char* here = (char*) __builtin_frame_address(0);
            if (here < *low) *low = here;
        }
        *depth = co_await nest(300, low);
    }
    void constant_stack()
    {
        char* base_ptr = (char*) __builtin_frame_address(0);
        char* low = base_ptr;
        long sum = 0;
        int depth = 0;
        longrun(3000, &sum, &depth, &low).detach();
        MC_CHECK(sum == 3000l * 2999 / 2, "sum %ld", sum);
        MC_CHECK(depth == 300, "depth %d", depth);
        int ran = 0, caught = 0, reached = 0;
        longrun_void(3000, &ran, &caught, &reached, &low).detach();
        MC_CHECK(ran == 3000 && caught == 300 && reached == 300, "%d awaits ran, %d exceptions arrived, %d levels returned", ran, caught, reached);
        MC_CHECK(base_ptr - low < 16384, "%ld bytes of stack used: awaiting is not a tail call", (long) (base_ptr - low));
        mc::outcome("ok");
    }
}
SCENARIO(trees_2) { trees(2); }
SCENARIO(trees_1) { trees(1); }
SCENARIO(owned_3, {.race_check = false}) { mc::choose_free(2, "type") ? owning<void>(3) : owning<int>(3); }
SCENARIO(owned_4, {.race_check = false}) { mc::choose_free(2, "type") ? owning<void>(4) : owning<int>(4); }
SCENARIO(owned_5, {.race_check = false}) { mc::choose_free(2, "type") ? owning<void>(5) : owning<int>(5); }
SCENARIO(ownership_plans) { ownership(); }
SCENARIO(long_chains, {.horizon = 2000000}) { constant_stack(); }
