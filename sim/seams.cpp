// Seams below the library: time stamp counter, system clock and allocator.
#include "sim.h"
#include <cstdlib>
#include <new>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
Clock clk;
Alloc alloc;

uint64_t Clock::tick() {
    ++reads;
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t r = rng >> 33;
    switch (mode) {
        case Frozen: break;
        case Steady: tsc += 100; nsec += 40; break;
        case Stalls: { uint64_t d = r % 16 == 0 ? 4000000000ull : r % 100; tsc += d; nsec += d; break; }
        case Jumps:  { uint64_t d = r % 8 == 0 ? (r << 20) : r % 50; tsc += d; nsec += (r % 8 == 1) ? 3600000000000ull : d; break; }
        case Backward: if (r % 4 == 0) { tsc -= r % 5000; nsec -= nsec > 100000000 ? r % 100000000 : 0; } else { tsc += r % 1000; nsec += r % 1000; } break;
    }
    if (tsc == ~0ull) tsc = 0;
    return tsc;
}
}

// Called instead of the rdtsc instruction (see clockseam.h)
extern "C" unsigned long long sim_rdtsc() {
    sim::alloc.preemption();
    if (!sim::clk.on) { static unsigned long long t = 0; return t += 64; }
    return sim::clk.tick();
}

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!sim::clk.on) return (int)syscall(SYS_clock_gettime, id, ts);
    sim::clk.tick();
    ts->tv_sec = sim::clk.nsec / 1000000000ull; ts->tv_nsec = sim::clk.nsec % 1000000000ull;
    return 0;
}

// Tells whether this allocation fails
static bool allocFails() {
    if (sim::alloc.armed) {
        ++sim::alloc.seen;
        if (sim::alloc.countdown-- <= 0) {
            sim::alloc.armed = false; sim::alloc.fired = true;
            return true;
        }
    }
    return false;
}
static void* simAlloc(std::size_t n) {
    sim::alloc.preemption();
    void* p = allocFails() ? nullptr : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
// Allocations that report failures by a null pointer (those of std::stable_sort, which does without) never fail
static void* simAllocNothrow(std::size_t n) noexcept { return malloc(n ? n : 1); }
using nt = std::nothrow_t;
void* operator new(std::size_t n) { return simAlloc(n); }
void* operator new[](std::size_t n) { return simAlloc(n); }
void* operator new(std::size_t n, const nt&) noexcept { return simAllocNothrow(n); }
void* operator new[](std::size_t n, const nt&) noexcept { return simAllocNothrow(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, const nt&) noexcept { free(p); }
void operator delete[](void* p, const nt&) noexcept { free(p); }
