// C07: solvers are isolated from each other and deterministic
#include "world.h"
#include "fiber.h"
namespace sim {

struct Plan {
    SolverSpec sp; RhsSpec rs; V x0; double t0; int n; bool watchRhs;
    std::vector<std::pair<long,int>> faults;   // per step: where to throw (-1: nowhere), flavour
};

// Makes planned actions; returns the complete history of what has been observed
struct Preempt { Preempt(bool on) { alloc.onPreempt = &Fibers::preempted; alloc.preempt = on; } ~Preempt() { alloc.preempt = false; } };
static void execute(const Plan& p, Fibers* fb, std::vector<double>& hist, bool preempt = false) {
    auto put = [&](double v) { hist.push_back(v); };
    World w; w.watchRhs = p.watchRhs;
    if (fb) w.cx.yield = [fb](Point) { fb->yield(); };
    w.cx.onPoint = [&](Point q) { put(1000 + q); };      // switches are suspended while user code runs, except at its beginning
    w.build(p.sp, p.rs);
    if (fb) fb->yield();
    { Preempt q(preempt); w.solver->setInitialState(p.t0, p.x0); }
    for (int i = 0; i < p.n; ++i) {
        if (p.faults[i].first >= 0) w.cx.arm(p.faults[i].first, p.faults[i].second); else w.cx.disarm();
        size_t na = w.attempts.size();
        auto r = guarded([&] { Preempt q(preempt); w.solver->doStep(); });
        put(int(r)); put(w.t());
        for (double v : w.x()) put(v);
        for (; na < w.attempts.size(); ++na) { auto& a = w.attempts[na]; put(a.h); put(a.accepted); put(a.err); put(a.truncated); put(a.izf); }
        if (fb) fb->yield();
    }
    for (double h : w.pre) put(h);
}

SCENARIO(C07, registerAll) {
    Sim& s = S_;
    int K = s.range(2, 4);
    std::vector<Plan> plans(K);
    std::vector<std::vector<double>> solo(K), inter(K), again(K);
    bool sameKind = s.chance(1, 2);
    for (int k = 0; k < K; ++k) {
        auto& p = plans[k];
        if (k > 0 && sameKind) { p = plans[0]; if (s.chance(1, 2)) p.rs = RhsSpec::draw(s, true); }
        else { p.sp = SolverSpec::draw(s); p.rs = RhsSpec::draw(s, true); }
        p.x0 = p.rs.drawState(s); p.t0 = s.pick({0.0, 1.0}); p.n = s.range(1, 4); p.watchRhs = s.chance(1, 4);
        p.faults.clear();
        for (int i = 0; i < p.n; ++i) p.faults.push_back(s.chance(1, 4) ? std::make_pair((long)s.draw(80), (int)s.draw(3)) : std::make_pair(-1L, 0));
        s.note("solver", p.sp.str());
    }
    for (int k = 0; k < K; ++k) execute(plans[k], nullptr, solo[k]);
    Fibers fb;
    fb.den = s.pick({3u, 1u, 8u, 30u});
    bool preempt = s.chance(1, 2); fb.gap = s.pick({3, 30, 300, 3000});     // what is initialized at its first use has been used by now
    for (int k = 0; k < K; ++k) fb.spawn([&, k] { execute(plans[k], &fb, inter[k], preempt); });
    // another task creates, configures and destroys components meanwhile
    bool builder = s.chance(1, 3);
    if (builder) {
        SolverSpec o = SolverSpec::draw(s); RhsSpec ors = RhsSpec::draw(s, true);
        fb.spawn([&, o, ors] { for (int i = 0; i < 3; ++i) { World w; w.build(o, ors); fb.yield(); w.solver->setParameters(w.solver->parameters()); fb.yield(); } });
    }
    fb.run();
    for (uint64_t i = 0; i < fb.switches; ++i) s.faults["task-switch"]++;
    s.runFaults += fb.switches;
    if (fb.preemptions) { s.faults["task-switch-in-library"] += fb.preemptions; s.runFaults += fb.preemptions; }
    s.ev("switches", {double(fb.switches)});
    if (fb.switches > 2u*K) s.nontrivial();
    for (int k = 0; k < K; ++k) {
        bool eq = solo[k].size() == inter[k].size();
        size_t d = 0;
        while (d < solo[k].size() && d < inter[k].size() && sameBits(solo[k][d], inter[k][d])) ++d;
        s.check(eq && d == solo[k].size(), "interference", "history of %s (%s) differs at item %u of %u when other solvers work at the same time: %.17g, alone %.17g", fmt("solver %d", k).c_str(), plans[k].sp.str().c_str(),
            (unsigned)d, (unsigned)solo[k].size(), d < inter[k].size() ? inter[k][d] : -1., d < solo[k].size() ? solo[k][d] : -1.);
        for (double v : solo[k]) s.ev("", {v});
    }
    // once more after all that
    int k = s.draw(K);
    execute(plans[k], nullptr, again[k]);
    s.check(same(solo[k], again[k]), "not-repeatable", "history of %s differs when repeated in the same process", plans[k].sp.str().c_str());
}

}
