// Deterministic simulation core: choice source, event log, fault and probe accounting, seams.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// Thrown to end a run: the property is violated
struct Violation { std::string kind, msg; };
// Thrown to end a run that decides nothing (e.g. the fault-free reference execution itself is rejected by the code)
struct Discard { std::string why; };

class Sim {
public:
    // ---- choices: the only source of nondeterminism of a run
    uint32_t draw(uint32_t n);                       // 0..n-1; 0 is the simplest choice
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }   // 0 -> false
    int range(int lo, int hi) { return lo + int(draw(uint32_t(hi - lo + 1))); }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(uint32_t(l.size()))); }
    template<class T> const T& pickv(const std::vector<T>& l) { return l[draw(uint32_t(l.size()))]; }
    double unit(int levels = 1024) { return double(draw(levels)) / levels; }     // [0,1)

    // ---- history: everything observable is logged; the hash of the log identifies the execution
    void ev(const char* name, std::initializer_list<double> args = {});
    void note(const char* name, const std::string& s);
    void fault(const char* kind) { ++faults[kind]; ++runFaults; shape(kind); }
    void probe(const char* what) { ++probes[what]; }
    void shape(const char* s);                       // contributes to the interleaving/state measure
    void shapeN(uint64_t n) { shapeHash = (shapeHash ^ n) * 1099511628211ull; }
    void nontrivial() { isNontrivial = true; }

    [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void check(bool ok, const char* kind, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    [[noreturn]] void discard(const char* why) { throw Discard{why}; }

    // ---- per-run state
    uint64_t hash, shapeHash;
    uint64_t steps;                                  // number of simulator-visible events
    uint64_t stepLimit;
    double simTime;
    uint64_t runFaults;
    bool isNontrivial;
    bool failed;
    Violation violation;
    bool verbose = false;
    // ---- totals of the process
    std::map<std::string, uint64_t> faults, probes;

    // choice source state
    bool replaying = false;
    uint64_t rng = 0;
    size_t pos = 0;
    std::vector<uint32_t> replayChoices;
    void tick();                                     // counts a simulator event; bounds a run
};

extern Sim* S;

struct Scenario { const char* id; void (*fn)(Sim&); void (*init)(); bool isolated; };
struct RegisterScenario { RegisterScenario(const char* id, void (*fn)(Sim&), void (*init)(), bool isolated = false); };
#define SCENARIO(ID, INIT) \
    static void scenario_##ID(sim::Sim&); \
    static sim::RegisterScenario reg_scenario_##ID(#ID, &scenario_##ID, INIT); \
    static void scenario_##ID(sim::Sim& S_)
// Each run in a process of its own, for code whose state lives as long as the process
#define SCENARIO_ISOLATED(ID, INIT) \
    static void scenario_##ID(sim::Sim&); \
    static sim::RegisterScenario reg_scenario_##ID(#ID, &scenario_##ID, INIT, true); \
    static void scenario_##ID(sim::Sim& S_)

// ---- simulated clock (TSC and clock_gettime), see seams.cpp
struct Clock {
    enum Mode { Frozen, Steady, Stalls, Jumps, Backward };
    bool on = false;
    Mode mode = Frozen;
    uint64_t tsc = 1000, nsec = 0;
    uint64_t reads = 0, rng = 1;
    uint64_t tick();
};
extern Clock clk;

// ---- simulated allocator failures, see seams.cpp
struct Alloc {
    bool armed = false;
    long countdown = 0;      // fails the allocation when it reaches zero
    bool fired = false;
    uint64_t seen = 0;       // allocations seen while armed
    bool preempt = false;    // switch tasks at allocations and clock reads of the library
    void (*onPreempt)() = nullptr;
    void preemption() { if (preempt) { preempt = false; onPreempt(); preempt = true; } }
};
extern Alloc alloc;
struct AllocGuard {          // suspends failures and task switches inside harness code called back by the library
    bool was, pre; AllocGuard() : was(alloc.armed), pre(alloc.preempt) { alloc.armed = alloc.preempt = false; } ~AllocGuard() { alloc.armed = was && !alloc.fired; alloc.preempt = pre; }
};

inline bool sameBits(double a, double b) { return (a != a && b != b) || a == b; }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
