// C06: setting a new initial state makes a solver forget its past
#include "world.h"
namespace sim {

static void randomHistory(Sim& s, World& w, const SolverSpec& sp, std::vector<RhsSpec>& systems, bool& reconfigured) {
    int episodes = s.range(1, 3);
    std::string what;
    for (int e = 0; e < episodes; ++e) {
        if (e > 0 && s.chance(1, 2)) {
            systems.push_back(RhsSpec::draw(s, true));
            w.setRhs(systems.back()); s.probe("system replaced"); s.ev("system");
        }
        if (s.chance(1, 4)) {
            // other options of the same solver for a while
            SolverSpec o;
            do o = SolverSpec::draw(s); while (o.id != sp.id && s.draw(64) != 0);
            if (o.id == sp.id) {
                w.solver->setParameters(solverParams(o)); reconfigured = true;
                if (sp.id == "i_euler" && (o.reorder || sp.reorder)) { reorder(*w.solver, o.reorder); if (o.reorder != sp.reorder) s.probe("another order of variables in the past"); }
                s.probe("options changed in the past"); s.note("options", o.str()); }
        }
        const RhsSpec& rs = w.rhs->spec;
        w.solver->setInitialState(s.pick({0.0, 2.0, -1.0}), rs.drawState(s));
        int n = s.range(0, 5);
        for (int i = 0; i < n; ++i) {
            if (s.chance(1, 3)) { w.cx.arm(s.draw(100), s.draw(3)); w.cx.terminateNewton = sp.id == "i_euler" && s.chance(1, 3); } else w.cx.disarm();
            w.cx.nanAt = s.chance(1, 8) ? (long)s.draw(20) : -1; w.cx.rhsCounter = 0; w.cx.nanValue = s.pick({(double)NAN, (double)INFINITY, 1e200});
            auto r = guarded([&] { w.solver->doStep(); }, &what);
            s.ev(r == Thrown::None ? "step" : "failed-step", {w.t()});
            if (r != Thrown::None) s.probe("failed step in the past");
            if (!w.attempts.empty() && w.attempts.back().truncated) s.probe("event in the past");
            if (!finite(w.x())) break;
            if (s.chance(1, 8)) { w.solver->setInitialState(w.t(), w.solver->initialState(), true); s.ev("soft-reset"); }
        }
    }
    w.cx.disarm(); w.cx.nanAt = -1;
}

SCENARIO(C06, registerAll) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s);
    if (s.chance(1, 4)) sp.hmin = 1e-6;
    std::vector<RhsSpec> systems{RhsSpec::draw(s, true)};
    bool newSystem = s.chance(1, 3);
    RhsSpec fin = newSystem ? RhsSpec::draw(s, true) : systems[0];
    V x0 = fin.drawState(s);
    double t0 = s.pick({0.0, 1.0, -2.5});
    int N = s.range(1, 5);
    s.note("solver", sp.str());

    World a; a.build(sp, systems[0]);
    bool reconfigured = false;
    Parts original = parts(*a.solver); bool swapEc = s.chance(1, 3); if (swapEc) { Parts q = original; q.events = ctm::Factory<ctm::math::OdeEventController<VD>>::newInstance("linear"); setParts(*a.solver, q); }
    randomHistory(s, a, sp, systems, reconfigured);
    bool first = s.chance(1, 2);
    if (first && (newSystem || systems.size() > 1)) a.setRhs(fin);
    if (reconfigured) {
        a.solver->setParameters(solverParams(sp)); if (sp.id == "i_euler") reorder(*a.solver, sp.reorder);
        if ((original.reference || original.newton) && s.chance(1, 2)) { setParts(*a.solver, original); s.probe("components of the past come back"); }
    }
    if (swapEc) { setParts(*a.solver, original); s.probe("components of the past come back"); }
    if (!first && (newSystem || systems.size() > 1)) a.setRhs(fin);
    World b; b.build(sp, fin);
    a.attempts.clear();
    // sometimes the new initial time and state coincide with the current ones
    if (s.chance(1, 4)) { t0 = a.t(); s.probe("reset at the current time"); }
    if (s.chance(1, 6) && a.x().size() == fin.n() && finite(a.x())) { x0 = a.solver->initialState(); s.probe("reset to the current state"); }
    std::string wa, wb;
    a.solver->setInitialState(t0, x0);
    b.solver->setInitialState(t0, x0);
    s.check(sameBits(a.t(), t0) && same(a.x(), vec(x0)), "initial-state-not-set", "%s: initial state set to %s at time %g is %s at %.17g", sp.str().c_str(), str(vec(x0)).c_str(), t0, str(a.x()).c_str(), a.t());
    s.ev("reset");
    for (int i = 0; i < N; ++i) {
        auto ra = guarded([&] { a.solver->doStep(); }, &wa);
        auto rb = guarded([&] { b.solver->doStep(); }, &wb);
        if (ra != rb) s.fail("outcome-depends-on-past", "%s: step %d after reset %s '%s' and %s '%s' in a new solver", sp.str().c_str(), i, ra == Thrown::None ? "succeeds" : "fails", ra == Thrown::None ? "" : wa.c_str(), rb == Thrown::None ? "succeeds" : "fails", rb == Thrown::None ? "" : wb.c_str());
        s.ev("step", {b.t()});
        s.check(sameBits(a.t(), b.t()), "time-depends-on-past", "%s: step %d after reset ends at %.17g, in a new solver at %.17g", sp.str().c_str(), i, a.t(), b.t());
        s.check(same(a.x(), b.x()), "state-depends-on-past", "%s: step %d after reset ends with %s, in a new solver with %s", sp.str().c_str(), i, str(a.x()).c_str(), str(b.x()).c_str());
        s.check(a.attempts.size() == b.attempts.size(), "attempts-depend-on-past", "%s: %d attempts after reset, %d in a new solver", sp.str().c_str(), (int)a.attempts.size(), (int)b.attempts.size());
        if (!a.attempts.empty()) {
            auto &p = a.attempts.back(), &q = b.attempts.back();
            s.check(sameBits(p.h, q.h) && p.truncated == q.truncated && p.izf == q.izf && p.tt == q.tt && sameBits(p.err, q.err), "report-depends-on-past", "%s: report on step %d depends on what was before reset", sp.str().c_str(), i);
        }
        if (rb != Thrown::None || !finite(b.x())) break;
    }
    s.nontrivial();
    s.simTime += std::fabs(b.t() - t0);
}

}
