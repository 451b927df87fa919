// C02: rejected step attempts leave no trace
#include "world.h"
namespace sim {

SCENARIO(C02, registerAll) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s, SolverSpec::Adaptive | SolverSpec::Explicit | SolverSpec::Implicit | SolverSpec::NoQuasi);
    sp.noErr = false;
    if (s.chance(1, 4)) sp.hmin = s.pick({1e-3, 1e-2});
    RhsSpec rs = RhsSpec::draw(s, true);
    bool exact = sp.exact() && !(sp.ref && sp.ref->id == "i_euler");
    if (!exact) rs.tame();
    V x0 = rs.drawState(s);
    double t0 = s.pick({0.0, 1.0, -2.5});
    int N = s.range(1, 7);
    bool faults = s.chance(1, 3);
    int rejWeight = s.range(1, 4);     // of 6
    bool quiet = s.chance(1, 3);       // keep the step size often
    s.note("solver", sp.str());

    World a; a.build(sp, rs, true, true);
    struct Call { double h, e, o; SimCtl::R r; };
    std::vector<Call> calls;
    double normValue = 0; bool normSet = false;
    a.norm->f = [&](const V& v) { normValue = v.infNorm(); if (s.chance(1, 8)) { normValue = s.pick({0.0, (double)NAN, 1e300, 1e-300}); } normSet = true; return normValue; };
    int rejectsInStep = 0, marathon = sp.id == "rosenbrock_sw2_4" && s.chance(1, 25) ? s.range(95, 230) : 0;     // more step sizes in one step than factorizations are kept
    if (marathon) s.probe("a hundred and more rejected attempts in a step");
    a.ctl->f = [&](double h, double e, double o) {
        SimCtl::R r(h, true, false);
        if (marathon > 0) { --marathon; r = SimCtl::R(marathon % 7 == 3 ? h / 0.985 : h * s.pick({0.99, 0.985, 0.995}), false, true); s.fault("attempt-rejected"); }
        else if (rejectsInStep < 5 && s.chance(rejWeight, 6)) { ++rejectsInStep; r = SimCtl::R(h * s.pick({0.5, 0.75, 0.1, 0.9}), false, true); s.fault("attempt-rejected"); }
        else if (!quiet || s.chance(1, 3)) { double f = s.pick({1.0, 2.0, 0.5, 1.25}); if (h * f > 2) f = 0.5; r = SimCtl::R(h * f, true, true); }
        calls.push_back(Call{h, e, o, r});
        s.ev(r.acceptStep ? "ctl-accept" : "ctl-reject", {h, e, r.newStepSize});
        s.check(normSet && sameBits(e, normValue), "controller-error-norm", "%s: controller is given error norm %.17g, calculated error norm is %.17g", sp.str().c_str(), e, normValue);
        s.check(o == sp.lowOrder(), "controller-order", "%s: controller is given order %g, expected %d", sp.str().c_str(), o, sp.lowOrder());
        return r;
    };
    double expectH = sp.h, tb = 0; std::vector<double> xb;
    std::vector<double> pre;
    struct Acc { double h, t; std::vector<double> x; bool truncated; unsigned izf; int tt; double err; };
    std::vector<Acc> acc;
    size_t callsAtPre = 0; uint64_t switchAtPre = 0; bool minHit = false;
    a.cx.onPoint = [&](Point p) {
        if (p == P_PRE) {
            callsAtPre = calls.size(); switchAtPre = a.cx.calls[P_SWITCH]; normSet = false;
            double h = a.pre.back();
            s.check(std::fabs(h - expectH) <= 1e-13*expectH, "attempted-step-size", "%s: attempt with step size %.17g, expected %.17g", sp.str().c_str(), h, expectH);
            s.check(sameBits(a.t(), tb) && same(a.x(), xb), "trace-of-rejected-attempt", "%s: attempt starts at time %.17g with state %s; the step has started at time %.17g with state %s",
                sp.str().c_str(), a.t(), str(a.x()).c_str(), tb, str(xb).c_str());
        }
    };
    a.onPost = [&](const OdeSolverPostObserverArg<VD>& arg) {
        s.check(calls.size() == callsAtPre + 1, "controller-calls", "%s: step size controller has been called %d times in an attempt", sp.str().c_str(), int(calls.size() - callsAtPre));
        auto& c = calls.back();
        s.check(std::fabs(c.h - expectH) <= 1e-13*expectH, "controller-step-size", "%s: controller is given step size %.17g, attempted %.17g", sp.str().c_str(), c.h, expectH);
        s.check(sameBits(arg.stepSize(), c.h) && arg.stepAccepted() == c.r.acceptStep && arg.stepSizeChanged() == c.r.changeStepSize && sameBits(arg.errorNorm(), c.e) && arg.solver() == a.solver.get(),
            "untruthful-report", "%s: report says h=%.17g accepted=%d changed=%d err=%.17g, the controller was given h=%.17g err=%.17g and has returned accepted=%d changed=%d",
            sp.str().c_str(), arg.stepSize(), arg.stepAccepted(), arg.stepSizeChanged(), arg.errorNorm(), c.h, c.e, c.r.acceptStep, c.r.changeStepSize);
        bool sw = a.cx.calls[P_SWITCH] != switchAtPre;
        if (!c.r.acceptStep) {
            s.check(!arg.stepTruncated() && !sw, "event-in-rejected-attempt", "%s: rejected attempt: truncated=%d, state switched=%d", sp.str().c_str(), arg.stepTruncated(), sw);
            s.check(sameBits(a.t(), tb) && same(a.x(), xb), "state-advanced-by-rejected-attempt", "%s: rejected attempt has moved the solution from time %.17g to %.17g", sp.str().c_str(), tb, a.t());
        } else {
            s.check(arg.stepTruncated() == sw || rs.zf.empty(), "untruthful-truncation", "%s: truncated=%d, state switched=%d", sp.str().c_str(), arg.stepTruncated(), sw);
            if (!arg.stepTruncated())
                s.check(std::fabs(a.t() - (tb + c.h)) <= 1e-13 * (1 + std::fabs(tb)), "time-advance", "%s: accepted step %.17g from time %.17g ends at %.17g", sp.str().c_str(), c.h, tb, a.t());
            else
                s.check(a.t() >= tb && a.t() <= tb + c.h * (1 + 1e-12), "time-advance", "%s: truncated step %.17g from time %.17g ends at %.17g", sp.str().c_str(), c.h, tb, a.t());
            acc.push_back(Acc{c.h, a.t(), a.x(), arg.stepTruncated(), arg.izfTrunc(), arg.transitionType(), arg.errorNorm()});
            tb = a.t(); xb = a.x(); rejectsInStep = 0;
        }
        if (c.r.changeStepSize) expectH = c.r.newStepSize;
        if (arg.stepTruncated() && sp.id.compare(0, 5, "dopri") == 0 && sp.hAfterSwitch > 0 && expectH > sp.hAfterSwitch) expectH = sp.hAfterSwitch;
    };
    a.solver->setInitialState(t0, x0);
    tb = t0; xb = vec(x0);
    bool rejected = false;
    std::string what;
    for (int i = 0; i < N && !minHit; ++i) {
        size_t target = acc.size() + 1;
        for (int k = 0; acc.size() < target && k < 8 && !minHit; ++k) {
            if (faults && k < 4 && s.chance(1, 2)) a.cx.arm(s.draw(60), s.draw(3)); else a.cx.disarm();
            size_t nc = calls.size(), na = acc.size();
            auto r = guarded([&] { a.solver->doStep(); }, &what);
            if (r == Thrown::None) {
                s.check(acc.size() == na + 1, "accepted-attempts-per-step", "%s: %d accepted attempts in a step", sp.str().c_str(), int(acc.size() - na));
            } else if (!a.cx.fired) {
                // Only the minimum of the step size may stop the integration
                bool min = calls.size() > nc && calls.back().r.changeStepSize && calls.back().r.newStepSize <= sp.hmin;
                if (!min && !finite(vec(a.solver->initialState()))) s.discard("state is not finite");
                if (!min && what.find("Algebraic solver failed") == 0) s.discard("Newton solver of the reference solver failed");
                s.check(min, "unexpected-exception", "%s: step throws '%s' without an injected fault; last proposed step size %.17g", sp.str().c_str(), what.c_str(), calls.empty() ? 0. : calls.back().r.newStepSize);
                minHit = true; s.probe("minimum step size"); s.ev("min-step");
                if (!calls.back().r.acceptStep)
                    s.check(sameBits(a.t(), tb) && same(a.x(), xb), "state-advanced-by-rejected-attempt", "%s: rejected attempt at minimum step size has moved the solution from time %.17g to %.17g", sp.str().c_str(), tb, a.t());
            } else rejectsInStep = 0;
        }
        a.cx.disarm();
        // An attempt with a step size at or below the minimum must not follow
        if (!minHit && expectH <= sp.hmin && !calls.empty() && calls.back().r.changeStepSize && calls.back().r.newStepSize <= sp.hmin)
            s.fail("step-size-below-minimum", "%s: step size %.17g at or below the minimum %.17g is not reported", sp.str().c_str(), expectH, sp.hmin);
    }
    for (auto& c : calls) if (!c.r.acceptStep) rejected = true;
    if (rejected && !acc.empty()) s.nontrivial();
    if (acc.empty()) return;
    s.simTime += std::fabs(a.t() - t0);

    // A twin that makes accepted attempts only
    for (auto& q : acc) if (!finite(q.x)) s.discard("state is not finite");
    SolverSpec sp2 = sp; sp2.h = acc[0].h; sp2.hmin = 0;
    World b; b.build(sp2, rs, true, true);
    size_t k = 0;
    b.ctl->f = [&](double h, double, double) { return k + 1 < acc.size() ? SimCtl::R(acc[k+1].h, true, true) : SimCtl::R(h, true, false); };
    b.solver->setInitialState(t0, x0);
    double tol = exact ? 0 : 1e-6;
    if (!exact && a.cx.minZf < 1e-5) s.discard("an event is sensitive to round-off errors");
    for (; k < acc.size(); ++k) {
        if (guarded([&] { b.solver->doStep(); }, &what) != Thrown::None && what.find("Algebraic solver failed") == 0) s.discard("Newton solver of the reference solver failed");
        if (b.attempts.size() != k + 1)
            s.fail("twin-fails", "%s: accepted step %u with step size %.17g fails without preceding rejected attempts: %s", sp.str().c_str(), (unsigned)k, acc[k].h, what.c_str());
        auto& q = acc[k]; auto& at = b.attempts.back();
        s.check(at.h == q.h, "twin-step-size", "%s: step size of accepted step %u is %.17g with rejected attempts, %.17g without", sp.str().c_str(), (unsigned)k, q.h, at.h);
        bool okx = tol == 0 ? same(b.x(), q.x) && sameBits(b.t(), q.t) : maxDiff(b.x(), q.x) <= tol && std::fabs(b.t() - q.t) <= tol;
        s.check(okx && at.truncated == q.truncated && at.izf == q.izf && at.tt == q.tt, "rejected-attempts-leave-trace",
            "%s: accepted step %u of size %.17g ends at %.17g with %s (truncated=%d zf=%u type=%d) after rejected attempts, and at %.17g with %s (truncated=%d zf=%u type=%d) without them",
            sp.str().c_str(), (unsigned)k, q.h, q.t, str(q.x).c_str(), q.truncated, q.izf, q.tt, b.t(), str(b.x()).c_str(), at.truncated, at.izf, at.tt);
        if (q.truncated) s.probe("event");
    }
}

}
