// C01: exceptions thrown by user callbacks never corrupt the solution
#include "world.h"
namespace sim {

SCENARIO(C01, registerAll) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s);
    RhsSpec rs = RhsSpec::draw(s, true);
    if (!sp.exact()) { rs.tame(); if (sp.adaptive()) sp.noErr = true; }    // a step size controller would amplify differences
    V x0 = rs.drawState(s);
    double t0 = s.pick({0.0, 1.0, -2.5});
    bool watchRhs = s.chance(1, 3);
    int N = s.range(1, 6);
    s.note("solver", sp.str());
    s.ev("system", {double(rs.n2), double(rs.n1), double(rs.zf.size()), t0, double(N)});

    // Fault-free twin
    World a; a.watchRhs = watchRhs;
    a.build(sp, rs);
    std::vector<long> pointsPerStep, attemptsPerStep;
    std::vector<double> tEnd; std::vector<std::vector<double>> xEnd;
    auto points = [&]() { uint64_t r = 0; for (auto c : a.cx.calls) r += c; return r; };
    std::string what;
    if (guarded([&] {
        a.solver->setInitialState(t0, x0);
        for (int i = 0; i < N; ++i) {
            auto c0 = points(); auto n0 = a.attempts.size();
            a.solver->doStep();
            pointsPerStep.push_back(points() - c0); attemptsPerStep.push_back(a.attempts.size() - n0);
            tEnd.push_back(a.t()); xEnd.push_back(a.x());
            s.ev("ref", {a.t()});
            if (!finite(xEnd.back())) s.discard("reference is not finite");
        }
    }, &what) != Thrown::None) s.discard("reference execution is rejected by the library");
    s.simTime += std::fabs(a.t() - t0);
    if (!sp.exact() && a.cx.minZf < 1e-5) s.discard("an event is sensitive to round-off errors");

    // The same with faults
    World b; b.watchRhs = watchRhs;
    b.build(sp, rs);
    b.solver->setInitialState(t0, x0);
    double tol = sp.exact() ? 0 : 1e-6;
    auto eqT = [&](double p, double q) { return tol == 0 ? sameBits(p, q) : std::fabs(p - q) <= tol; };
    auto eqX = [&](const std::vector<double>& p, const std::vector<double>& q) { return tol == 0 ? same(p, q) : maxDiff(p, q) <= tol*100; };
    size_t doneAttempts = 0;
    for (int i = 0; i < N; ++i) {
        int nfaults = s.draw(4);
        bool done = false;
        for (int f = 0; !done; ++f) {
            if (f < nfaults) {
                // mostly place the fault inside the step, sometimes near its end (where the step is committed)
                long n = pointsPerStep[i];
                long at = s.chance(1, 3) ? n - 1 - (long)s.draw(std::min<long>(n, 6)) : (long)s.draw(n);
                b.cx.arm(at, s.draw(3));
                b.cx.terminateNewton = sp.id == "i_euler" && s.chance(1, 3);
            } else
                b.cx.disarm();
            double tb = b.t(); auto xb = b.x();
            size_t na = b.attempts.size();
            auto r = guarded([&] { b.solver->doStep(); }, &what);
            if (r == Thrown::None) { done = true; continue; }
            if (!b.cx.fired && !sp.exact() && r == Thrown::Lib && quasiNewtonLost(what)) s.discard("quasi-Newton iterations do not converge from the matrix left by a failed step");
            if (!b.cx.fired)
                s.fail("unexpected-exception", "step %d of %s throws '%s' without an injected fault; the fault-free execution makes the step", i, sp.str().c_str(), what.c_str());
            s.nontrivial();
            bool committed = b.cx.firedAt == P_POST && b.attempts.back().accepted;
            s.ev("faulted", {double(i), double(b.cx.firedAt), double(committed), b.t()});
            if (committed) { done = true; s.probe("exception after the step is complete"); }
            else {
                s.check(sameBits(b.t(), tb), "time-changed-by-failed-step", "step %d of %s failed in %s: time %.17g became %.17g", i, sp.str().c_str(), pointName[b.cx.firedAt], tb, b.t());
                auto xa = b.x();
                s.check(same(xa, xb), "state-changed-by-failed-step", "step %d of %s failed in %s: state %s became %s", i, sp.str().c_str(), pointName[b.cx.firedAt], str(xb).c_str(), str(xa).c_str());
                if (b.attempts.size() > na) s.probe("exception after a rejected attempt");
            }
        }
        b.cx.disarm();
        s.ev("step", {b.t()});
        s.check(eqT(b.t(), tEnd[i]), "time-differs-after-recovery", "step %d of %s ends at %.17g after recovery, %.17g without faults", i, sp.str().c_str(), b.t(), tEnd[i]);
        auto xb = b.x();
        s.check(eqX(xb, xEnd[i]), "state-differs-after-recovery", "step %d of %s ends with state %s after recovery, %s without faults", i, sp.str().c_str(), str(xb).c_str(), str(xEnd[i]).c_str());
        doneAttempts += attemptsPerStep[i];
        s.check(b.attempts.size() == doneAttempts, "attempts-differ-after-recovery", "step %d of %s: %u completed attempts reported after recovery, %u without faults", i, sp.str().c_str(), (unsigned)b.attempts.size(), (unsigned)doneAttempts);
        for (size_t j = doneAttempts - attemptsPerStep[i]; j < doneAttempts; ++j) {
            auto &p = a.attempts[j], &q = b.attempts[j];
            s.check(eqT(p.h, q.h) && p.accepted == q.accepted && p.changed == q.changed && p.truncated == q.truncated && p.izf == q.izf && p.tt == q.tt && eqT(p.err, q.err),
                "report-differs-after-recovery", "attempt %u of %s: h=%.17g acc=%d chg=%d trunc=%d zf=%u err=%.17g after recovery, h=%.17g acc=%d chg=%d trunc=%d zf=%u err=%.17g without faults",
                (unsigned)j, sp.str().c_str(), q.h, q.accepted, q.changed, q.truncated, q.izf, q.err, p.h, p.accepted, p.changed, p.truncated, p.izf, p.err);
            if (p.truncated) s.probe("event");
            if (!p.accepted) s.probe("rejected attempt");
        }
    }
}

}
