// Recording operation histories without adding scheduling points or happens-before edges.
#pragma once
#include <cstdint>
#include "mcrt.h"
namespace kh
{
    inline uint64_t g_stamp;
    // a strictly increasing logical time; invisible to the race detector on purpose
    __attribute__((no_sanitize("thread"), noinline)) inline uint64_t stamp() { return ++g_stamp; }
    // bookkeeping counters of the harness, likewise invisible to the race detector
    __attribute__((no_sanitize("thread"), noinline)) inline void bump(int& c, int d) { c += d; }
    struct Span
    {
        uint64_t b = 0, e = ~0ull;
        bool before(const Span& o) const { return e < o.b; }
    };
}
