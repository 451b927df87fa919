// C15: solveOde makes the whole solution, gives every output its start and its end, and passes failures on
#include "world.h"
#include "ode_num_int/ode/OdeSolverConfiguration.h"
#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
namespace sim {
using namespace ctm;
using namespace ctm::math;
typedef OdeSolverConfiguration<VD> Config;
typedef OdeSolverComponents<VD> Components;

// ---- what the library finds in its factories
struct Rec { int what, slot; double t; };          // 0 before, 1 after, 2 post-step seen by an output, 3 any callback of the system
static std::vector<Rec> rec;
struct OutPlan { int before = -1, after = -1, post = -1; };   // number of the call that throws
[[noreturn]] static void boom(int slot, const char* where, int flavor) {
    AllocGuard g; S->fault(where); S->ev(where, {double(slot)});
    if (flavor == 1) throw SimFaultOther{slot};
    if (flavor == 2) throw std::bad_alloc();
    throw SimFault(fmt("%s %d", where, slot));
}
struct LifeOut : OdeSolverOutputOption<VD>, FactoryMixin<LifeOut, OdeSolverOutputOption<VD>> {
    int slot = -1, flavor = 0; OutPlan plan; int nBefore = 0, nAfter = 0, nPost = 0; bool open = false; double p = 1;
    const Config* cfg = nullptr; const Components* comp = nullptr;
    typedef OdeSolverPostObservers<VD>::cb_type Cb; std::unique_ptr<cxx::ScopedIdentifiedElement<Cb>> cb;
    LifeOut() {}
    Parameters parameters() const { Parameters m; m["p"] = p; return m; }
    void setParameters(const Parameters& m) { maybeLoadParameter(m, "p", p); }
    void beforeFirstStep(const Config* c, const Components* k) {
        AllocGuard g;
        rec.push_back({0, slot, k->solver()->initialTime()}); ++nBefore; cfg = c; comp = k;
        if (plan.before == 0) boom(slot, "throw:output-start", flavor);
        open = true;
        cb.reset(new cxx::ScopedIdentifiedElement<Cb>(k->solver()->odeSolverPostObservers, Cb([this](const OdeSolverPostObserverArg<VD>& a) {
            AllocGuard g; rec.push_back({2, slot, a.solver()->initialTime()}); if (plan.post == nPost++) boom(slot, "throw:output-step", flavor); })));
    }
    void afterSolve() { AllocGuard g; rec.push_back({1, slot, 0}); ++nAfter; open = false; cb.reset(); if (plan.after == 0) boom(slot, "throw:output-end", flavor); }
};
static void init15() {
    registerAll(); regOut();
    static LifeOut::Registrator a("life"); static SimRhs::Registrator b("simrhs");
}
static Thrown caught(const std::function<void()>& f, std::string* what) {
    try { return guarded(f, what); } catch (const SimFaultOther& e) { *what = fmt("other %d", e.code); return Thrown::Sim; }
}

SCENARIO(C15, init15) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s), sr = SolverSpec::draw(s, SolverSpec::Explicit | SolverSpec::Fixed);
    RhsSpec rs = RhsSpec::draw(s, true);
    unsigned n = rs.n();
    V x0 = rs.drawState(s);
    double t0 = s.pick({0.0, 1.0, -0.5, 0.1});
    s.note("solver", sp.str());
    std::unique_ptr<World> w(new World), tw(new World);
    SimRhs::newCx = &w->cx; SimRhs::newSpec = rs;
    // ---- configuration; the solver is put in with all its options
    Config cfg;
    std::vector<std::string> slots = {"output_stats", "output_con", "output_file"};
    std::vector<LifeOut*> out(3, nullptr);
    bool haveRef = s.chance(1, 3), haveInit = s.chance(1, 2), badInit = haveInit && s.chance(1, 4), noRhs = s.chance(1, 16), noSolver = s.chance(1, 16);
    double duration = s.pick({1.0, 0.3, 0.5, 2.0, 0.05, 0.0, -1.0}); if (s.chance(1, 2)) duration = sp.h * s.range(0, 6);
    if (duration / sp.h > 40) duration = 40*sp.h;
    cfg.setValue("solver", noSolver ? "" : sp.id); cfg.setValue("time", duration);
    if (!noRhs) cfg.setValue("rhs", "simrhs");
    if (haveRef) cfg.setValue("reference_solver", sr.id);
    std::vector<int> used;
    for (int i = 0; i < 3; ++i) if (s.chance(2, 3)) { cfg.setValue(slots[i], "life"); used.push_back(i); }
    V xi = rs.drawState(s); double ti = s.pick({0.25, -2.0, 0.0});
    if (haveInit) {
        unsigned m = badInit ? n + s.pick({1, -1, 3}) : n;
        cfg.setValue("init_state", "specified"); cfg.setValue("init_state.size", int(m)); cfg.setValue("init_state.time", ti);
        for (unsigned i = 0; i < n && i < m; ++i) cfg.setValue(fmt("init_state.x%u", i), xi[i]);
    }
    auto pp = cfg.parameterProvider();
    if (!noSolver) { pp->solver()->setParameters(solverParams(sp)); if (sp.reorder) reorder(*pp->solver(), sp.reorder); }
    if (haveRef) pp->refSolver()->setParameters(solverParams(sr));
    { auto get = [](const std::shared_ptr<OdeSolverOutputOption<VD>>& p) { return dynamic_cast<LifeOut*>(p.get()); };
      out = {get(pp->statisticsOutput()), get(pp->stepConsoleOutput()), get(pp->stepFileOutput())};
      for (int i = 0; i < 3; ++i) { bool u = std::find(used.begin(), used.end(), i) != used.end(); s.check(!!out[i] == u, "output-slot", "output %d: %d, expected %d", i, !!out[i], u); if (out[i]) out[i]->slot = i; } }
    // ---- apply
    std::string what;
    bool refuse = noSolver || badInit && !noRhs;
    double T0 = haveInit ? ti : t0; V X0 = haveInit ? xi : x0;
    std::unique_ptr<Components> comp;
    if (noRhs) {
        // without a system the solution is refused before anything is started
        if (noSolver) return;
        auto solver = pp->solver(); solver->setInitialState(t0, x0);
        Components c(solver, nullptr, nullptr, nullptr, false, nullptr, false, std::vector<unsigned>(), nullptr, false);
        rec.clear();
        auto r = caught([&] { solveOde(&cfg, &c); }, &what);
        s.check(r == Thrown::Lib, "no-system-accepted", "solveOde without a system: %d %s", int(r), what.c_str());
        s.check(rec.empty(), "output-lifecycle", "outputs are started without a system");
        s.probe("no system"); s.nontrivial(); return;
    }
    bool starve = !refuse && s.chance(1, 5);
    if (starve) {
        alloc = Alloc(); alloc.countdown = s.draw(30);
        auto r = caught([&] { alloc.armed = true; cfg.apply(std::set<unsigned>(), t0, x0); alloc.armed = false; }, &what); alloc.armed = false;
        if (alloc.fired) s.fault("allocation-failure");
        s.check(r == Thrown::None || r == Thrown::Sim && alloc.fired, "apply", "apply throws '%s'", what.c_str());
    }
    auto r = caught([&] { comp.reset(new Components(cfg.apply(std::set<unsigned>(), t0, x0))); }, &what);
    s.ev("apply", {double(int(r)), double(refuse)});
    if (refuse) {
        s.check(r == Thrown::Lib, "apply-accepted", "apply %s: %d %s", noSolver ? "without a solver" : "with an initial state of wrong size", int(r), what.c_str());
        s.probe(noSolver ? "no solver" : "wrong size"); s.nontrivial(); return;
    }
    s.check(r == Thrown::None, "apply", "apply throws '%s'", what.c_str());
    s.check(comp->solver() == pp->solver() && comp->refSolver() == pp->refSolver() && comp->odeRhs() == pp->odeRhs(), "apply-components", "components are not those of the configuration");
    for (auto p : {comp->solver(), comp->refSolver()}) if (p) {
        s.check(p->odeRhs() == pp->odeRhs(), "apply-rhs", "%s has another system", p == comp->solver() ? "solver" : "reference solver");
        s.check(sameBits(p->initialTime(), T0) && same(vec(p->initialState()), vec(X0)), "apply-initial-state", "%s starts at t=%.17g %s, expected t=%.17g %s", p == comp->solver() ? "solver" : "reference solver",
            p->initialTime(), str(vec(p->initialState())).c_str(), T0, str(vec(X0)).c_str());
    }
    std::vector<double> refX; double refT = 0; if (comp->refSolver()) { refX = vec(comp->refSolver()->initialState()); refT = comp->refSolver()->initialTime(); }
    // ---- worlds: w looks at the solver of the configuration, tw is driven step by step
    w->spec = sp; w->solver = comp->solver(); w->observe();
    tw->build(sp, rs); tw->solver->setInitialState(T0, X0);
    w->cx.onPoint = [&](Point) { rec.push_back({3, -1, 0}); };
    int rounds = s.range(1, 3);
    for (int round = 0; round < rounds; ++round) {
        // ---- the next solution with another configuration; setting a value makes new components
        if (round && s.chance(1, 3)) {
            s.probe("another configuration");
            std::unique_ptr<World> w0, tw0; bool again = s.chance(1, 2);
            if (again) { w0 = std::move(w); tw0 = std::move(tw); w.reset(new World); tw.reset(new World); SimRhs::newCx = &w->cx; SimRhs::newSpec = rs; }
            if (again && s.chance(1, 2)) { sp = SolverSpec::draw(s); cfg.setValue("solver", sp.id); pp->solver()->setParameters(solverParams(sp)); s.probe("another solver"); }
            if (again && s.chance(1, 2)) { sr = SolverSpec::draw(s, SolverSpec::Explicit | SolverSpec::Fixed); haveRef = s.chance(1, 2); cfg.setValue("reference_solver", haveRef ? sr.id : ""); if (haveRef) pp->refSolver()->setParameters(solverParams(sr)); }
            if (again && s.chance(1, 2)) { haveInit = s.chance(1, 2); cfg.setValue("init_state", haveInit ? "specified" : "");
                if (haveInit) { xi = rs.drawState(s); cfg.setValue("init_state.size", int(n)); cfg.setValue("init_state.time", ti); for (unsigned i = 0; i < n; ++i) cfg.setValue(fmt("init_state.x%u", i), xi[i]); } }
            std::vector<bool> want; for (auto o : out) want.push_back(!!o);
            for (int i = 0; i < 3; ++i) if (s.chance(1, 3)) { want[i] = s.chance(2, 3); cfg.setValue(slots[i], want[i] ? "life" : ""); }
            if (again || s.chance(1, 2)) duration = sp.h * s.range(0, 12) / 2;
            cfg.setValue("time", duration);
            used.clear();
            for (int i = 0; i < 3; ++i) { auto q = i == 0 ? pp->statisticsOutput() : i == 1 ? pp->stepConsoleOutput() : pp->stepFileOutput();
                s.check(!!q == want[i], "output-slot", "output %d: %d, expected %d", i, !!q, int(want[i]));
                out[i] = dynamic_cast<LifeOut*>(q.get()); if (out[i]) { out[i]->slot = i; used.push_back(i); } }
            if (again) {
                w->spec = sp; tw->build(sp, rs); if (sp.reorder) reorder(*pp->solver(), sp.reorder);
                x0 = rs.drawState(s); t0 = s.pick({0.0, 1.0, -0.5, 0.1}); T0 = haveInit ? ti : t0; X0 = haveInit ? xi : x0;
                auto r = caught([&] { comp.reset(new Components(cfg.apply(std::set<unsigned>(), t0, x0))); }, &what);
                s.check(r == Thrown::None, "apply", "apply throws '%s'", what.c_str());
                s.check(comp->solver() == pp->solver() && comp->refSolver() == pp->refSolver() && comp->odeRhs() == pp->odeRhs(), "apply-components", "components are not those of the changed configuration");
                s.check(!!comp->refSolver() == haveRef, "apply-components", "reference solver %d, expected %d", !!comp->refSolver(), haveRef);
                for (auto p : {comp->solver(), comp->refSolver()}) if (p) {
                    s.check(p->odeRhs() == pp->odeRhs(), "apply-rhs", "%s keeps the previous system", p == comp->solver() ? "solver" : "reference solver");
                    s.check(sameBits(p->initialTime(), T0) && same(vec(p->initialState()), vec(X0)), "apply-initial-state", "applied again: solver starts at t=%.17g, expected t=%.17g", p->initialTime(), T0);
                }
                refX.clear(); refT = 0; if (comp->refSolver()) { refX = vec(comp->refSolver()->initialState()); refT = comp->refSolver()->initialTime(); }
                w->solver = comp->solver(); w->observe(); tw->solver->setInitialState(T0, X0);
                w->cx.onPoint = [&](Point) { rec.push_back({3, -1, 0}); };
            }
        }
        // ---- plan of failures
        for (auto o : out) if (o) { o->plan = OutPlan(); o->flavor = s.draw(3); o->nBefore = o->nAfter = o->nPost = 0; }
        int failBefore = -1, failPost = -1, failPostN = 0; std::vector<int> failAfter;
        if (!used.empty()) {
            if (s.chance(1, 6)) { failBefore = s.pickv(used); out[failBefore]->plan.before = 0; }
            if (s.chance(1, 5)) { failPost = s.pickv(used); failPostN = s.draw(6); out[failPost]->plan.post = failPostN; }
            for (int u : used) if (s.chance(1, 5)) { failAfter.push_back(u); out[u]->plan.after = 0; }
        }
        long at = s.chance(1, 4) ? s.draw(s.chance(1, 2) ? 30 : 300) : 3000; int flavor = s.draw(3);
        w->cx.arm(at, flavor); tw->cx.arm(at, flavor);
        double tb = w->t(); auto xb = w->x(); double end = tb + duration;
        w->attempts.clear(); tw->attempts.clear(); rec.clear();
        // ---- twin
        std::string what2; int steps = 0, nposts = 0; bool postFired = false;
        size_t id = ~size_t(0);
        if (failPost >= 0) id = tw->solver->odeSolverPostObservers.add([&](const OdeSolverPostObserverArg<VD>&) { if (nposts++ == failPostN) { postFired = true; throw SimFault("post"); } });
        Thrown r2 = Thrown::None;
        if (failBefore < 0) r2 = caught([&] { do { tw->solver->doStep(); ++steps; } while (tw->t() < end); }, &what2);
        if (id != ~size_t(0)) tw->solver->odeSolverPostObservers.remove(id);
        // ---- the real thing
        auto r1 = caught([&] { solveOde(&cfg, comp.get()); }, &what);
        std::string ctx = fmt("round %d, duration %g, %s", round, duration, sp.str().c_str());
        s.ev("solve", {double(int(r1)), w->t(), double(steps)});
        s.note("what", what);
        // ---- life of outputs
        size_t firstOther = rec.size(), lastOther = 0;
        for (size_t i = 0; i < rec.size(); ++i) if (rec[i].what >= 2) { firstOther = std::min(firstOther, i); lastOther = i; }
        std::vector<int> befores, afters;
        for (size_t i = 0; i < rec.size(); ++i) {
            if (rec[i].what == 0) { befores.push_back(rec[i].slot); s.check(i < firstOther, "output-lifecycle", "%s: output %d is started after the solution", ctx.c_str(), rec[i].slot); s.check(sameBits(rec[i].t, tb), "output-lifecycle", "%s: output %d is started at time %g rather than %g", ctx.c_str(), rec[i].slot, rec[i].t, tb); }
            if (rec[i].what == 1) { afters.push_back(rec[i].slot); s.check(firstOther == rec.size() || i > lastOther, "output-lifecycle", "%s: output %d is finished before the solution is", ctx.c_str(), rec[i].slot); }
        }
        std::vector<int> started; for (int u : used) { started.push_back(u); if (u == failBefore) break; }
        s.check(befores == started, "output-lifecycle", "%s: %u outputs are started, expected %u, in order of statistics, console, file", ctx.c_str(), (unsigned)befores.size(), (unsigned)started.size());
        for (int u : started) {
            int na = std::count(afters.begin(), afters.end(), u);
            s.check(na == 1 || (u == failBefore && na == 0), "output-lifecycle", "%s: output %d is finished %d times", ctx.c_str(), u, na);
            s.check(!out[u]->open, "output-lifecycle", "%s: output %d is left open", ctx.c_str(), u);
            s.check(out[u]->cfg == &cfg && out[u]->comp == comp.get(), "output-lifecycle", "%s: output %d is given other components", ctx.c_str(), u);
        }
        for (int u : afters) s.check(std::find(started.begin(), started.end(), u) != started.end(), "output-lifecycle", "%s: output %d is finished without having been started", ctx.c_str(), u);
        // ---- solution
        auto expectThrown = [&](int slot, const char* where, int fl) {
            s.check(r1 == Thrown::Sim && what == (fl == 1 ? fmt("other") : fl == 2 ? "std::bad_alloc" : fmt("%s %d", where, slot)), "exception-identity", "%s: %s of output %d fails, exception of solveOde: %d '%s'", ctx.c_str(), where, slot, int(r1), what.c_str());
        };
        if (failBefore >= 0) {
            expectThrown(failBefore, "throw:output-start", out[failBefore]->flavor);
            s.check(sameBits(w->t(), tb) && same(w->x(), xb) && firstOther == rec.size(), "steps-without-output", "%s: steps are made although output %d could not be started", ctx.c_str(), failBefore);
            s.probe("output not started"); s.nontrivial(); continue;
        }
        s.check(sameBits(w->t(), tw->t()) && same(w->x(), tw->x()), "solution", "%s: solution ends at t=%.17g %s, expected t=%.17g %s", ctx.c_str(), w->t(), str(w->x()).c_str(), tw->t(), str(tw->x()).c_str());
        s.check(w->attempts.size() == tw->attempts.size(), "solution", "%s: %u attempts, expected %u", ctx.c_str(), (unsigned)w->attempts.size(), (unsigned)tw->attempts.size());
        for (int u : used) { size_t k = 0; for (auto& e : rec) if (e.what == 2 && e.slot == u) ++k; size_t want = tw->attempts.size();
            // an exception of an observer ends the notification
            s.check(k == want || (r2 != Thrown::None && k + 1 == want), "output-steps", "%s: output %d has seen %u of %u attempts", ctx.c_str(), u, (unsigned)k, (unsigned)want); }
        if (r2 == Thrown::None) {
            s.check(w->t() >= end, "end-time", "%s: solution from %.17g ends at %.17g", ctx.c_str(), tb, w->t());
            if (failAfter.empty()) s.check(r1 == Thrown::None, "unexpected-exception", "%s: exception '%s', although nothing has failed", ctx.c_str(), what.c_str());
            else { bool ok = false; for (int u : failAfter) { int fl = out[u]->flavor; if (r1 == Thrown::Sim && what == (fl == 1 ? "other" : fl == 2 ? "std::bad_alloc" : fmt("throw:output-end %d", u))) ok = true; }
                s.check(ok, "exception-identity", "%s: end of an output fails, exception of solveOde: %d '%s'", ctx.c_str(), int(r1), what.c_str()); s.probe("output end fails"); s.nontrivial(); }
        } else if (postFired) { expectThrown(failPost, "throw:output-step", out[failPost]->flavor); s.probe("output step fails"); s.nontrivial(); }
        else {
            s.check(r1 == r2 && what == what2, "exception-identity", "%s: exception of solveOde is '%s', expected '%s'", ctx.c_str(), what.c_str(), what2.c_str()); s.probe("solution aborted"); s.nontrivial(); 
            if (r2 == Thrown::Lib) break;
        }
        if (steps > 1) s.nontrivial();
        s.simTime += w->t() - tb;
        if (!finite(w->x())) break;
        if (comp->refSolver()) s.check(sameBits(comp->refSolver()->initialTime(), refT) && same(vec(comp->refSolver()->initialState()), refX), "reference-solver-touched", "%s: solveOde has changed the reference solver", ctx.c_str());
    }
    // nothing is left attached
    for (auto o : out) if (o) o->plan = OutPlan();
    rec.clear(); w->cx.disarm();
    guarded([&] { w->solver->doStep(); });
    for (auto& e : rec) s.check(e.what == 3, "still-attached", "an output is called by a step after solveOde");
}
}
