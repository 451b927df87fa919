// Cooperative tasks: one runs at a time, and the simulator decides which one continues at each switch point.
#pragma once
#include "sim.h"
#include <ucontext.h>
namespace sim {
class Fibers {
public:
    Fibers();
    ~Fibers();
    int spawn(std::function<void()> f);     // exceptions leaving f end the run
    void run();                             // until all tasks have finished
    void yield();                           // may switch to another task (no-op outside of tasks)
    int current() const { return cur; }
    uint64_t switches = 0;
    unsigned den = 3;                       // switch with probability 1/den
    uint64_t preemptions = 0; int gap = 40, next = 0;
    static void preempted();                // switches at every so many allocations and clock reads (see Alloc::preempt)
private:
    struct F;
    std::vector<std::unique_ptr<F>> fs;
    int cur = -1;
    ucontext_t mainCtx;
    void* mainFake = nullptr; const void* mainBottom = nullptr; size_t mainSize = 0;
    std::exception_ptr err;
    static Fibers* active;
    static void entry();
    void switchTo(int to);
    void resumed(void* fake);
};
}
