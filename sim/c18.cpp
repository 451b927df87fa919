// C18: running out of memory never corrupts a solver
#include "world.h"
namespace sim {

SCENARIO(C18, registerAll) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s);
    RhsSpec rs = RhsSpec::draw(s, true);
    if (!sp.exact()) { rs.tame(); if (sp.adaptive()) sp.noErr = true; }
    V x0 = rs.drawState(s), xr = rs.drawState(s);
    double t0 = s.pick({0.0, 1.0, -2.5});
    int N = s.range(1, 6);
    int resetAt = s.chance(1, 3) ? s.range(0, N - 1) : -1;      // a new initial state in the middle
    bool again = resetAt >= 0 && s.chance(1, 2), options = resetAt >= 0 && s.chance(1, 3);      // the system, options are set again before that
    s.note("solver", sp.str());
    s.ev("system", {double(rs.n2), double(rs.n1), double(rs.zf.size()), t0, double(N), double(resetAt)});

    // The twin has enough memory; allocations are counted
    World a; a.build(sp, rs);
    std::vector<long> allocs; long allocsReset = 0, allocsInit = 0, allocsRhs = 0, allocsPar = 0;
    std::vector<double> tEnd; std::vector<std::vector<double>> xEnd;
    std::string what;
    auto counted = [&](const std::function<void()>& f) {
        alloc = Alloc(); alloc.countdown = 1L << 60; alloc.armed = true;
        try { f(); } catch (...) { alloc.armed = false; throw; }
        alloc.armed = false; return (long)alloc.seen;
    };
    if (guarded([&] {
        allocsInit = counted([&] { a.solver->setInitialState(t0, x0); });
        for (int i = 0; i < N; ++i) {
            if (i == resetAt && options) { Parameters p = solverParams(sp); allocsPar = counted([&] { a.solver->setParameters(p); }); }
            if (i == resetAt && again) { auto r = a.rhs; allocsRhs = counted([&] { a.solver->setOdeRhs(r); }); }
            if (i == resetAt) allocsReset = counted([&] { a.solver->setInitialState(t0 + 1, xr); });
            allocs.push_back(counted([&] { a.solver->doStep(); }));
            tEnd.push_back(a.t()); xEnd.push_back(a.x());
            s.ev("ref", {a.t(), double(allocs.back())});
            if (!finite(xEnd.back())) s.discard("reference is not finite");
        }
    }, &what) != Thrown::None) s.discard("reference execution is rejected by the library");
    s.simTime += std::fabs(a.t() - t0);
    if (!sp.exact() && a.cx.minZf < 1e-5) s.discard("an event is sensitive to round-off errors");

    World b; b.build(sp, rs);
    double tol = sp.exact() ? 0 : 1e-6;
    auto eqT = [&](double p, double q) { return tol == 0 ? sameBits(p, q) : std::fabs(p - q) <= tol; };
    auto eqX = [&](const std::vector<double>& p, const std::vector<double>& q) { return tol == 0 ? same(p, q) : maxDiff(p, q) <= tol*100; };
    // f with an allocation failure; true if the failure has come out
    auto starved = [&](long n, const std::function<void()>& f) {
        alloc = Alloc(); alloc.countdown = s.chance(1, 3) ? n - 1 - (long)s.draw(std::min<long>(n, 8)) : (long)s.draw(n); alloc.armed = true;
        Thrown r;
        try { r = guarded(f, &what); } catch (...) { alloc.armed = false; throw; }
        alloc.armed = false;
        if (alloc.fired) s.fault("allocation-failure");
        if (!alloc.fired && !sp.exact() && r == Thrown::Lib && quasiNewtonLost(what)) s.discard("quasi-Newton iterations do not converge from the matrix left by a failed step");
        if (r != Thrown::None && !alloc.fired) s.fail("unexpected-exception", "%s throws '%s' without an allocation failure; it does not, if there is enough memory all the time", sp.str().c_str(), what.c_str());
        if (r == Thrown::Lib) s.fail("other-exception", "%s throws '%s' rather than bad_alloc on an allocation failure", sp.str().c_str(), what.c_str());
        if (r == Thrown::None && alloc.fired) s.probe("failure survived");
        return r != Thrown::None;
    };
    auto init = [&](long n, double t, const V& x) {
        for (int k = s.draw(3); k > 0 && n > 0; --k) if (!starved(n, [&] { b.solver->setInitialState(t, x); })) return;
        b.solver->setInitialState(t, x);
        s.check(sameBits(b.t(), t) && same(b.x(), vec(x)), "initial-state", "%s: initial state set again after an allocation failure is not that given", sp.str().c_str());
    };
    init(allocsInit, t0, x0);
    for (int i = 0; i < N; ++i) {
        auto retried = [&](long n, const std::function<void()>& f) { for (int k = s.draw(3); k > 0 && n > 0; --k) if (!starved(n, f)) return; f(); };
        if (i == resetAt && options) { Parameters p = solverParams(sp); retried(allocsPar, [&] { b.solver->setParameters(p); }); s.probe("options"); }
        if (i == resetAt && again) { auto r = b.rhs; retried(allocsRhs, [&] { b.solver->setOdeRhs(r); }); s.probe("system"); }
        if (i == resetAt) init(allocsReset, t0 + 1, xr);
        int nf = s.draw(4);
        for (int f = 0; ; ++f) {
            double tb = b.t(); auto xb = b.x();
            if (f < nf && allocs[i] > 0) {
                if (!starved(allocs[i], [&] { b.solver->doStep(); })) break;
                s.nontrivial();
                auto xa = b.x();
                s.ev("starved", {double(i), b.t()});
                if (sameBits(b.t(), tb) && same(xa, xb)) { s.probe("step undone"); continue; }
                s.check(eqT(b.t(), tEnd[i]) && eqX(xa, xEnd[i]), "half-made-step", "step %d of %s has run out of memory: t=%.17g, state %s; before the step t=%.17g %s, after it t=%.17g %s",
                    i, sp.str().c_str(), b.t(), str(xa).c_str(), tb, str(xb).c_str(), tEnd[i], str(xEnd[i]).c_str());
                s.probe("step complete");
                break;
            }
            if (Thrown r = guarded([&] { b.solver->doStep(); }, &what); r != Thrown::None) {
                if (!sp.exact() && r == Thrown::Lib && quasiNewtonLost(what)) s.discard("quasi-Newton iterations do not converge from the matrix left by a failed step");
                s.fail("unexpected-exception", "step %d of %s throws '%s' after an earlier allocation failure", i, sp.str().c_str(), what.c_str());
            }
            break;
        }
        s.ev("step", {b.t()});
        s.check(eqT(b.t(), tEnd[i]), "time-differs-after-recovery", "step %d of %s ends at %.17g after recovery, %.17g without failures", i, sp.str().c_str(), b.t(), tEnd[i]);
        auto xb = b.x();
        s.check(eqX(xb, xEnd[i]), "state-differs-after-recovery", "step %d of %s ends with state %s after recovery, %s without failures", i, sp.str().c_str(), str(xb).c_str(), str(xEnd[i]).c_str());
    }
}

}
