#include "fiber.h"
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#include <cxxabi.h>
namespace sim {

Fibers* Fibers::active = nullptr;
static const size_t StackSize = 512*1024;
static std::vector<char*> stackPool;

struct Fibers::F {
    ucontext_t ctx; char* stack; void* fake = nullptr; bool done = false, started = false; std::function<void()> f;
};

Fibers::Fibers() { active = this; }
Fibers::~Fibers() {
    for (auto& f : fs) if (f->done || !f->started) { __asan_unpoison_memory_region(f->stack, StackSize); stackPool.push_back(f->stack); }
    active = nullptr;
}

int Fibers::spawn(std::function<void()> f) {
    auto p = std::unique_ptr<F>(new F);
    p->f = f;
    if (!stackPool.empty()) { p->stack = stackPool.back(); stackPool.pop_back(); }
    else p->stack = (char*)mmap(0, StackSize, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    getcontext(&p->ctx);
    p->ctx.uc_stack.ss_sp = p->stack; p->ctx.uc_stack.ss_size = StackSize; p->ctx.uc_link = nullptr;
    makecontext(&p->ctx, (void(*)())&Fibers::entry, 0);
    fs.push_back(std::move(p));
    return fs.size() - 1;
}

void Fibers::resumed(void* fake) {
    const void* b; size_t n;
    __sanitizer_finish_switch_fiber(fake, &b, &n);
}

void Fibers::entry() {
    Fibers* me = active;
    const void* b; size_t n;
    __sanitizer_finish_switch_fiber(nullptr, &b, &n);
    if (!me->mainBottom) { me->mainBottom = b; me->mainSize = n; }
    F& f = *me->fs[me->cur];
    try { f.f(); }
    catch (...) { me->err = std::current_exception(); }
    f.done = true; f.f = nullptr;
    me->cur = -1;
    __sanitizer_start_switch_fiber(nullptr, me->mainBottom, me->mainSize);   // this task never continues
    setcontext(&me->mainCtx);
}

void Fibers::switchTo(int to) {
    int from = cur;
    bool pre = alloc.preempt; alloc.preempt = false;
    // exceptions being handled belong to the task
    struct Eh { void* caught; unsigned uncaught; }; Eh* eh = (Eh*)abi::__cxa_get_globals(); Eh mine = *eh;
    if (to >= 0 && !fs[to]->started) *eh = Eh{nullptr, 0};
    ucontext_t* fc = from < 0 ? &mainCtx : &fs[from]->ctx;
    void** fake = from < 0 ? &mainFake : &fs[from]->fake;
    cur = to; ++switches;
    if (to < 0) {
        __sanitizer_start_switch_fiber(fake, mainBottom, mainSize);
        swapcontext(fc, &mainCtx);
    } else {
        fs[to]->started = true;
        __sanitizer_start_switch_fiber(fake, fs[to]->stack, StackSize);
        swapcontext(fc, &fs[to]->ctx);
    }
    resumed(*fake);
    *(Eh*)abi::__cxa_get_globals() = mine; alloc.preempt = pre;
}

void Fibers::preempted() {
    Fibers* me = active;
    if (!me || me->cur < 0 || me->next-- > 0) return;
    me->next = S->draw(me->gap); ++me->preemptions;
    me->switchTo(-1);
}

void Fibers::yield() {
    if (cur < 0) return;
    if (!S->chance(1, den)) return;
    switchTo(-1);
}

void Fibers::run() {
    while (!err) {
        std::vector<int> ready;
        for (size_t i = 0; i < fs.size(); ++i) if (!fs[i]->done) ready.push_back(i);
        if (ready.empty()) break;
        int n = ready[S->draw(ready.size())];
        S->shapeN(n);
        switchTo(n);
    }
    if (err) std::rethrow_exception(err);
}
}
